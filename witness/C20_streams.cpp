// C20: every form of byte source and sink gives the same result.
#include "rpc.hpp"
#include <vector>
using namespace rpc;

constexpr auto E = spec::FE;
constexpr auto S = spec::FS;

static const byte_t *g_in;
static byte_t *g_out;
byte_t free_source() { return g_in[fetched++]; }
void free_sink(byte_t b) { g_out[emitted++] = b; }
struct const_source {
  byte_t operator()() const { return g_in[fetched++]; }
};
struct const_sink {
  void operator()(byte_t b) const { g_out[emitted++] = b; }
};
struct move_only_source {
  move_only_source() {}
  move_only_source(move_only_source &&) {}
  byte_t operator()() { return g_in[fetched++]; }
};
struct move_only_sink {
  move_only_sink() {}
  move_only_sink(move_only_sink &&) {}
  void operator()(byte_t b) { g_out[emitted++] = b; }
};

//! Apply an operation to some form of source of the n bytes at p
template<typename Op>
void any_source(Op &op, const byte_t *p, unsigned n) {
  g_in = p;
  fetched = 0;
  bool counts = true;
  if (va_any())
    op(counting_source{p});
  else if (va_any()) {
    counting_source s{p};
    op(s);
  } else if (va_any()) {
    const const_source s{};
    op(s);
  } else if (va_any())
    op(const_source{});
  else if (va_any())
    op([&]() { return g_in[fetched++]; });
  else if (va_any()) {
    auto f = [&]() { return g_in[fetched++]; };
    op(f);
  } else if (va_any()) {
    unsigned i = 0;
    auto f = [p, i]() mutable {
      fetched++;
      return p[i++];
    };
    if (va_any())
      op(f);
    else
      op(std::move(f));
  } else if (va_any())
    op(free_source);
  else if (va_any())
    op(&free_source);
  else if (va_any())
    op(move_only_source{});
  else if (va_any())
    op(counting_input_it{p});
  else if (va_any()) {
    counting_input_it it{p};
    op(it);
  } else if (va_any()) {
    const counting_input_it it{p};
    op(it);
  } else {
    counts = false;
    if (va_any()) {
      const byte_t *q = p;
      op(q);
      va_check(q == p, "an iterator is taken by value");
    } else if (va_any())
      op(const_cast<byte_t *>(p));
    else if (va_any()) {
      std::array<byte_t, 24> a;
      for (unsigned i = 0; i < n; i++)
        a[i] = p[i];
      if (va_any())
        op(a.begin());
      else if (va_any())
        op(a.cbegin());
      else {
        auto it = a.cbegin();
        op(it);
      }
    } else if (va_any()) {
      std::vector<byte_t> v(p, p + n);
      if (va_any())
        op(v.begin());
      else {
        const auto it = v.cbegin();
        op(it);
      }
    } else {
      byte_t spread[3 * 24];
      for (unsigned i = 0; i < n; i++)
        spread[3 * i] = p[i];
      if (va_any())
        op(io::random_it<const byte_t>(spread));
      else if (va_any())
        op(io::bidi_it<byte_t>(spread));
      else
        op(io::forward_it<const byte_t>(spread));
    }
  }
  if (counts)
    va_eq(fetched, n, "bytes fetched");
}
//! Apply an operation to some form of sink; the m bytes written come into p
template<typename Op>
void any_sink(Op &op, byte_t *p, unsigned m) {
  g_out = p;
  emitted = 0;
  bool counts = true;
  if (va_any())
    op(counting_sink{p});
  else if (va_any()) {
    counting_sink s{p};
    op(s);
  } else if (va_any()) {
    const const_sink s{};
    op(s);
  } else if (va_any())
    op(const_sink{});
  else if (va_any())
    op([&](byte_t b) { g_out[emitted++] = b; });
  else if (va_any()) {
    auto f = [&](byte_t b) { g_out[emitted++] = b; };
    op(f);
  } else if (va_any()) {
    unsigned i = 0;
    auto f = [p, i](byte_t b) mutable {
      emitted++;
      p[i++] = b;
    };
    if (va_any())
      op(f);
    else
      op(std::move(f));
  } else if (va_any())
    op(free_sink);
  else if (va_any())
    op(&free_sink);
  else if (va_any())
    op(move_only_sink{});
  else if (va_any())
    op(counting_output_it{p});
  else if (va_any()) {
    counting_output_it it{p};
    op(it);
  } else {
    counts = false;
    if (va_any()) {
      byte_t *q = p;
      op(q);
      va_check(q == p, "an iterator is taken by value");
    } else if (va_any())
      op(static_cast<byte_t *>(p));
    else if (va_any()) {
      std::array<byte_t, 24> a;
      op(a.begin());
      for (unsigned i = 0; i < m; i++)
        p[i] = a[i];
    } else if (va_any()) {
      std::vector<byte_t> v(24);
      const auto it = v.begin();
      op(it);
      for (unsigned i = 0; i < m; i++)
        p[i] = v[i];
    } else {
      byte_t spread[3 * 24];
      if (va_any())
        op(io::random_it<byte_t>(spread));
      else
        op(io::bidi_it<byte_t>(spread));
      for (unsigned i = 0; i < m; i++)
        p[i] = spread[3 * i];
    }
  }
  if (counts)
    va_eq(emitted, m, "bytes emitted");
}

template<typename A>
struct one_request {
  request<0, E, S> r;
  byte_t in[4];
  byte_t out[5];
  one_request() {
    r.any(true);
    in[0] = 0;
    for (unsigned i = 0; i < 3; i++)
      in[i + 1] = r.bytes[i];
    for (byte_t &b : out)
      b = 0x3c;
  }
  void check(unsigned from = 0) {
    (void)from;
    r.called();
    keep(out, r.response, 0, 4, "the bytes emitted are the same");
    va_eq(out[4], 0x3c, "the bytes emitted are the same");
    va_reach("end");
  }
};

// Packets
struct send {
  using message_t = decltype(make_ring<E, S>().get(fn<0>::h{})(std::uint8_t{}, std::int16_t{}));
  message_t m;
  unsigned how;
  template<typename Dest>
  void operator()(Dest &&d) {
    const message_t &c = m;
    if (how == 0)
      m.write_to(UPD_FWD(d));
    else if (how == 1)
      m >> UPD_FWD(d);
    else if (how == 2)
      c.write_to(UPD_FWD(d));
    else
      c >> UPD_FWD(d);
  }
};
VA_PROP(packet) {
  one_request<void> q;
  send op{make_ring<E, S>().get(fn<0>::h{})(q.r.args.head, q.r.args.tail.head), va_any() ? 0u : va_any() ? 1u : va_any() ? 2u : 3u};
  any_sink(op, q.out, 4);
  keep(q.out, q.in, 0, 4, "the bytes emitted are the same");
  va_reach("end");
}

// Responses
struct receive {
  typename ring<E, S>::template key_t<fn<0>::h> k;
  unsigned how;
  std::uint32_t x;
  template<typename Src>
  void operator()(Src &&s) {
    const auto &c = k;
    if (how == 0)
      x = k.read_from(UPD_FWD(s));
    else if (how == 1)
      x = k << UPD_FWD(s);
    else if (how == 2)
      x = c.read_from(UPD_FWD(s));
    else
      x = c << UPD_FWD(s);
  }
};
VA_PROP(response) {
  request<0, E, S> r;
  r.any(true);
  receive op{{}, va_any() ? 0u : va_any() ? 1u : va_any() ? 2u : 3u, 0};
  any_source(op, r.response, 4);
  va_eq(op.x, fn<0>::res::r.v, "the value is the same");
  va_reach("end");
}

// Actions and dispatchers: a source and a sink
template<typename P, typename Dest>
struct with_dest {
  P &p;
  Dest &d;
  bool named;
  template<typename Src>
  void operator()(Src &&s) {
    if (named)
      p.go(UPD_FWD(s), d);
    else
      p.go(UPD_FWD(s), std::move(d));
  }
};
template<typename P, typename Src>
struct with_src {
  P &p;
  Src &s;
  bool named;
  template<typename Dest>
  void operator()(Dest &&d) {
    if (named)
      p.go(s, UPD_FWD(d));
    else
      p.go(std::move(s), UPD_FWD(d));
  }
};
template<typename A>
struct process {
  A &a;
  bool constant;
  template<typename Src, typename Dest>
  void go(Src &&s, Dest &&d) {
    const A &c = a;
    if (constant)
      c(UPD_FWD(s), UPD_FWD(d));
    else
      a(UPD_FWD(s), UPD_FWD(d));
  }
};
template<typename D>
struct dispatch {
  D &a;
  unsigned got;
  template<typename Src, typename Dest>
  void go(Src &&s, Dest &&d) {
    got = static_cast<unsigned>(a(UPD_FWD(s), UPD_FWD(d)));
  }
};
template<typename P>
void sources(P &p, const byte_t *in, unsigned n, byte_t *out) {
  emitted = 0;
  bool named = va_any();
  if (va_any()) {
    counting_sink d{out};
    with_dest<P, counting_sink> op{p, d, named};
    any_source(op, in, n);
    va_eq(emitted, 4, "bytes emitted");
  } else if (va_any()) {
    counting_output_it d{out};
    with_dest<P, counting_output_it> op{p, d, named};
    any_source(op, in, n);
    va_eq(emitted, 4, "bytes emitted");
  } else {
    byte_t *d = out;
    with_dest<P, byte_t *> op{p, d, named};
    any_source(op, in, n);
  }
}
template<typename P>
void sinks(P &p, const byte_t *in, unsigned n, byte_t *out) {
  fetched = 0;
  bool named = va_any();
  if (va_any()) {
    counting_source s{in};
    with_src<P, counting_source> op{p, s, named};
    any_sink(op, out, 4);
    va_eq(fetched, n, "bytes fetched");
  } else if (va_any()) {
    counting_input_it s{in};
    with_src<P, counting_input_it> op{p, s, named};
    any_sink(op, out, 4);
    va_eq(fetched, n, "bytes fetched");
  } else {
    const byte_t *s = in;
    with_src<P, const byte_t *> op{p, s, named};
    any_sink(op, out, 4);
  }
}
template<typename P>
void both(P &p, const byte_t *in, unsigned n, byte_t *out) {
  if (va_any())
    sources(p, in, n, out);
  else
    sinks(p, in, n, out);
}
VA_PROP(action) {
  one_request<void> q;
  action a{f0, endianess_h<E>{}, signed_mode_h<S>{}};
  process<action> p{a, va_any()};
  both(p, q.in + 1, 3, q.out);
  q.check();
}
VA_PROP(no_storage_action) {
  one_request<void> q;
  no_storage_action a{fn<0>::h{}, endianess_h<E>{}, signed_mode_h<S>{}};
  process<no_storage_action> p{a, va_any()};
  both(p, q.in + 1, 3, q.out);
  q.check();
}
struct single_op {
  action &a;
  bool constant;
  template<typename Src>
  void operator()(Src &&s) {
    const action &c = a;
    if (constant)
      c(UPD_FWD(s));
    else
      a(UPD_FWD(s));
  }
};
VA_PROP(action_input) {
  one_request<void> q;
  action a{f0, endianess_h<E>{}, signed_mode_h<S>{}};
  single_op op{a, va_any()};
  any_source(op, q.in + 1, 3);
  q.r.called();
  va_reach("end");
}
template<action_features A>
void plain() {
  one_request<void> q;
  using D = dispatcher<ring<E, S>, A>;
  D d;
  dispatch<D> p{d, 99};
  both(p, q.in, 4, q.out);
  va_eq(p.got, 0, "the index is returned");
  q.check();
}
VA_PROP(dispatcher__any) { plain<action_features::ANY>(); }
VA_PROP(dispatcher__weak) { plain<action_features::WEAK_REFERENCE>(); }
template<typename D>
void buffered() {
  one_request<void> q;
  D d;
  dispatch<D> p{d, 99};
  both(p, q.in, 4, q.out);
  va_eq(p.got, static_cast<unsigned>(packet_status::RESOLVED_PACKET), "the status is returned");
  q.check();
}
VA_PROP(single_buffered) { buffered<single_buffered_dispatcher<dispatcher<ring<E, S>, action_features::ANY>>>(); }
VA_PROP(double_buffered) { buffered<double_buffered_dispatcher<dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>>>(); }

template<typename D>
struct read_only {
  D &d;
  bool op;
  packet_status s;
  template<typename Src>
  void operator()(Src &&src) {
    if (op)
      s = d << UPD_FWD(src);
    else
      s = d.read_from(UPD_FWD(src));
  }
};
template<typename D>
struct write_only {
  D &d;
  bool op;
  template<typename Dest>
  void operator()(Dest &&dest) {
    if (op)
      d >> UPD_FWD(dest);
    else
      d.write_to(UPD_FWD(dest));
  }
};
template<typename D>
void apart() {
  one_request<void> q;
  D d;
  if (va_any()) {
    read_only<D> op{d, va_any(), packet_status::LOADING_PACKET};
    any_source(op, q.in, 4);
    va_check(op.s == packet_status::RESOLVED_PACKET, "the status is returned");
    unsigned n = 0;
    d.write_to([&](byte_t b) { q.out[n++] = b; });
  } else {
    for (unsigned i = 0; i < 4; i++)
      d.put(q.in[i]);
    write_only<D> op{d, va_any()};
    any_sink(op, q.out, 4);
  }
  q.check();
}
VA_PROP(single_apart) { apart<single_buffered_dispatcher<dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>>>(); }
VA_PROP(double_apart) { apart<double_buffered_dispatcher<dispatcher<ring<E, S>, action_features::ANY>>>(); }
