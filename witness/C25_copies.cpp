// C25: a moved or copied dispatcher, tuple or view carries its complete state.
#include "machine.hpp"
#include <utility>
using namespace rpc;

constexpr auto E = spec::FE;
constexpr auto S = spec::FS;

//! How an object is replicated
enum how_t { COPY, COPY_ASSIGN, MOVE, MOVE_ASSIGN };
inline how_t any_how(bool copyable) {
  if (copyable) {
    if (va_any())
      return COPY;
    if (va_any())
      return COPY_ASSIGN;
  }
  return va_any() ? MOVE : MOVE_ASSIGN;
}
template<typename M, bool Copyable>
struct replicate {
  template<typename F>
  static void run(M &m, how_t how, const F &f) {
    if (how == COPY) {
      M n(m);
      m.disturb();
      f(n);
    } else {
      M n;
      if (va_any())
        n.disturb();
      n = m;
      m.disturb();
      f(n);
    }
  }
};
template<typename M>
struct replicate<M, false> {
  template<typename F>
  static void run(M &, how_t, const F &) {
    va_assume(false);
  }
};

template<bool Double, action_features A>
struct carried : machine<Double, E, S, A> {
  using base = machine<Double, E, S, A>;
  static constexpr bool copyable = A == action_features::WEAK_REFERENCE;
  //! Use the object for something else
  void disturb() {
    log_t saved = log_;
    hold<std::uint32_t> r = fn<0>::res::r;
    byte_t b[IS];
    put_index(b, 1, E);
    for (unsigned i = 0; i < IS; i++)
      this->d.put(b[i]);
    put_index(b, 0, E);
    for (unsigned i = 0; i < IS; i++)
      this->d.put(b[i]);
    this->d.put(0);
    if (IS == 1) {
      this->d.put(0);
      this->d.put(0);
      this->d.put(0);
    }
    this->d.get();
    this->d.template replace<at(0)>(fn<0>::h{});
    log_ = saved;
    fn<0>::res::r = r;
  }
  template<typename F>
  static void transfer(carried &m, const F &f) {
    how_t how = any_how(copyable);
    if (how == MOVE) {
      carried n(std::move(m));
      if (copyable)
        m.disturb();
      f(n);
    } else if (how == MOVE_ASSIGN) {
      carried n;
      if (va_any())
        n.disturb();
      n = std::move(m);
      if (copyable)
        m.disturb();
      f(n);
    } else
      replicate<carried, copyable>::run(m, how, f);
  }
};

//! In the middle of a packet, after any history
template<typename M>
struct finish_packet {
  const request<0, E, S> &r;
  unsigned k;
  void operator()(M &n) const {
    n.rest();
    va_eq(log_.n, 0, "nothing is called");
    for (unsigned i = k; i < r.length; i++)
      n.put(r.wire(i), i == r.length - 1 ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET);
    request<0, E, S> q(r);
    n.resolved(q);
    while (n.from != n.to)
      n.fetch();
    n.forget();
    n.template request_any<2>(true);
    va_reach("packet");
  }
};
template<typename M>
struct finish_response {
  void operator()(M &n) const {
    while (n.from != n.to)
      n.fetch();
    n.forget();
    n.drop();
    n.template request_any<2>(true);
    while (n.from != n.to)
      n.fetch();
    va_reach("response");
  }
};
template<bool Double, action_features A>
void transfers() {
  using M = carried<Double, A>;
  {
    M m;
    while (va_more()) {
      m.step();
      m.blur();
    }
    {
      if (va_any()) {
        request<0, E, S> r;
        r.any(true);
        unsigned k = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : r.length - 1;
        for (unsigned i = 0; i < k; i++)
          m.put(r.wire(i), packet_status::LOADING_PACKET);
        M::transfer(m, finish_packet<M>{r, k});
      } else {
        m.template request_any<6>(true);
        if (va_any()) {
          m.fetch();
          if (va_any())
            m.fetch();
        }
        M::transfer(m, finish_response<M>{});
      }
    }
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(transfers__single_weak) { transfers<false, action_features::WEAK_REFERENCE>(); }
VA_PROP(transfers__double_weak) { transfers<true, action_features::WEAK_REFERENCE>(); }
VA_PROP(transfers__single_any) { transfers<false, action_features::ANY>(); }
VA_PROP(transfers__double_any) { transfers<true, action_features::ANY>(); }

//! A response being read while the next request is being received
template<typename M>
struct finish_both {
  const request<0, E, S> &r;
  void operator()(M &n) const {
    n.fetch();
    n.put(r.bytes[1], packet_status::LOADING_PACKET);
    n.fetch();
    n.put(r.bytes[2], packet_status::RESOLVED_PACKET);
    request<0, E, S> q(r);
    n.resolved(q);
    while (n.from != n.to)
      n.fetch();
    va_reach("both");
  }
};
template<action_features A>
void both() {
  using M = carried<true, A>;
  {
    M m;
    m.template request_any<6>(true);
    m.forget();
    request<0, E, S> r;
    r.any(true);
    for (unsigned i = 0; i < IS; i++)
      m.put(r.wire(i), packet_status::LOADING_PACKET);
    m.fetch();
    m.put(r.bytes[0], packet_status::LOADING_PACKET);
    M::transfer(m, finish_both<M>{r});
  }
  va_eq(va_live(), 0, "everything is released");
}
VA_PROP(both__weak) { both<action_features::WEAK_REFERENCE>(); }
VA_PROP(both__any) { both<action_features::ANY>(); }

//! Replaced actions are carried
static std::uint32_t other(std::uint8_t, std::int16_t) {
  log_.tag++;
  return fn<0>::res::r.v;
}
template<typename D>
void asked(D &d) {
  request<0, E, S> r;
  r.any(true);
  byte_t in[r.length], out[4];
  r.packet(in);
  d(in, out);
  va_eq(log_.tag * 16 + log_.n, 16, "the replaced action is carried");
  keep(out, r.response, 0, 4, "the replaced action is carried");
}
template<typename D>
void replaced(bool copyable) {
  {
    D d, e;
    d.template replace<at(0)>(UPD_CTREF(other));
    if (copyable)
      e.template replace<at(0)>(UPD_CTREF(f0));
    if (va_any()) {
      D f(std::move(d));
      asked(f);
    } else {
      e = std::move(d);
      asked(e);
    }
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
template<action_features A>
using D = dispatcher<ring<E, S>, A>;
VA_PROP(replaced__any) { replaced<D<action_features::ANY>>(false); }
VA_PROP(replaced__weak) { replaced<D<action_features::WEAK_REFERENCE>>(true); }
VA_PROP(replaced__single_any) { replaced<single_buffered_dispatcher<D<action_features::ANY>>>(false); }
VA_PROP(replaced__double_weak) { replaced<double_buffered_dispatcher<D<action_features::WEAK_REFERENCE>>>(true); }
VA_PROP(replaced__copy) {
  using W = D<action_features::WEAK_REFERENCE>;
  W d;
  d.replace<at(0)>(UPD_CTREF(other));
  if (va_any()) {
    W f(d);
    d.replace<at(0)>(fn<0>::h{});
    asked(f);
  } else {
    W f;
    f = d;
    d.replace<at(0)>(fn<0>::h{});
    asked(f);
  }
  va_reach("end");
}

//! Tuples and views
template<endianess E1, signed_mode S1, typename... Ts>
struct copies {
  using T = tuple<E1, S1, Ts...>;
  static void run() {
    T t;
    byte_t old[T::size];
    for (unsigned i = 0; i < T::size; i++)
      t[i] = old[i] = va_u8();
    if (va_any()) {
      T u(t);
      check(t, u, old);
    } else if (va_any()) {
      const T &c = t;
      T u(c);
      check(t, u, old);
    } else if (va_any()) {
      T u(std::move(t));
      check(t, u, old);
    } else {
      T u;
      for (unsigned i = 0; i < T::size; i++)
        u[i] = va_u8();
      if (va_any()) {
        const T &c = t;
        T &r = (u = c);
        va_check(&r == &u, "an assignment returns its target");
      } else if (va_any())
        u = std::move(t);
      else {
        u = t;
        u = *&u;
      }
      check(t, u, old);
    }
  }
  static void check(T &t, T &u, const byte_t *old) {
    keep(u.begin(), old, 0, T::size, "a copy holds the same bytes");
    keep(t.begin(), old, 0, T::size, "copying leaves the source as it was");
    for (unsigned i = 0; i < T::size; i++)
      t[i] = 0x3c;
    keep(u.begin(), old, 0, T::size, "a copy is independent");
    va_reach("end");
  }
};
// arbitrary bytes are not all representable: assignment of the same type has to be a copy of the bytes for the others
#define X(N, ...) EL_FORMATS(copies, N, __VA_ARGS__)
X(bytes, std::uint8_t, std::uint32_t, std::uint16_t[2])
#undef X
VA_PROP(view) {
  byte_t raw[10];
  for (byte_t &b : raw)
    b = va_u8();
  using V = decltype(make_view<std::uint8_t, std::uint16_t>(endianess_h<E>{}, signed_mode_h<S>{}, &raw[0]));
  V v{&raw[2]};
  V u(v), w(std::move(v));
  va_check(u.begin() == &raw[2] && u.end() == &raw[5] && w.begin() == &raw[2] && w.end() == &raw[5], "a copy of a view covers the same bytes");
  std::uint16_t x = va_u16();
  u.set<1>(x);
  va_eq(v.get<1>(), x, "copies of views alias the same bytes");
  va_eq(w.get<1>(), x, "copies of views alias the same bytes");
  va_reach("end");
}
VA_PROP(view_iterators) {
  byte_t raw[30];
  using V = decltype(make_view<std::uint8_t, std::uint16_t>(endianess_h<E>{}, signed_mode_h<S>{}, io::random_it<byte_t>(raw)));
  V v{io::random_it<byte_t>(raw + 3)};
  V u(v);
  std::uint16_t x = va_u16();
  u.set<1>(x);
  va_eq(v.get<1>(), x, "copies of views alias the same bytes");
  va_reach("end");
}
//! Packets are moved
VA_PROP(message) {
  request<0, E, S> r;
  r.any(true);
  auto k = make_ring<E, S>().get(fn<0>::h{});
  auto m = r.message(k);
  auto n(std::move(m));
  auto o = k(0, 0);
  o = std::move(n);
  unsigned i = 0;
  o.write_to([&](byte_t b) { va_eq(b, r.wire(i), "a moved packet holds the same bytes"); i++; });
  va_eq(i, r.length, "a moved packet holds the same bytes");
  va_reach("end");
}
