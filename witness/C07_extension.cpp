// C07: user-extended types are serialized by their extension alone.
#include "ext.hpp"
#include <upd/buffered_dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
using namespace upd;
using namespace el;

// In tuples, next to other elements, in arrays
template<endianess E, signed_mode S, typename... Ts>
struct in_tuple {
  using T = tuple<E, S, Ts...>;
  static constexpr unsigned N = values<Ts...>::size;
  template<unsigned... Is>
  static void run(seq<Is...>, unsigned free) {
    values<Ts...> v;
    v.any(S, va_any() ? POS : NEG, free);
    byte_t e[N];
    v.put(e, E, S);
    T t{nth<Is, Ts...>::get(v)...};
    va_eq(T::size, N, "announced size of a tuple");
    va_eq(t.end() - t.begin(), N, "storage of a tuple");
    keep(t.begin(), e, 0, N, "bytes of the intermediate values");
    const T &ct = t;
    EL_EACH(elem<Ts>::same(ct.template get<Is>(), nth<Is, Ts...>::get(v), "value rebuilt by the extension"));
    // through iterators
    byte_t buf[3 * (N + 2)];
    for (byte_t &b : buf)
      b = 0x5a;
    auto w = upd::make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, io::random_it<byte_t>(buf + 3));
    EL_EACH(w.template set<Is>(nth<Is, Ts...>::get(v)));
    for (unsigned i = 0; i < 3 * (N + 2); i++)
      va_eq(buf[i], i % 3 == 0 && i / 3 >= 1 && i / 3 <= N ? e[i / 3 - 1] : 0x5a, "bytes written through an iterator");
    EL_EACH(elem<Ts>::same(w.template get<Is>(), nth<Is, Ts...>::get(v), "value read through an iterator"));
    va_reach("tuple");
  }
  static void run() {
    for (unsigned i = 0; i <= sizeof...(Ts); i++)
      if (va_any())
        return run(make<sizeof...(Ts)>{}, i);
  }
};
#define X(N, ...) EL_FORMATS(in_tuple, N, __VA_ARGS__)
X(tuple__padded, padded_t)
X(tuple__small, small_t)
X(tuple__same, same_t)
X(tuple__nested, nested_t)
X(tuple__mixed, std::int8_t, padded_t, std::uint16_t, small_t, std::int8_t)
X(tuple__array, std::uint8_t, small_t[3], std::uint16_t)
X(tuple__stdarray, std::array<padded_t, 2>, std::uint8_t)
X(tuple__nestedmix, nested_t, std::uint8_t, same_t)
#undef X

// As arguments and results
struct log_t {
  unsigned n;
  padded_t p;
  small_t s;
  std::uint8_t u;
  padded_t result;
  small_t small_result;
} log_;
padded_t takes(padded_t p, std::uint8_t u, const small_t &s) {
  log_.n++;
  log_.p = p;
  log_.s = s;
  log_.u = u;
  return log_.result;
}
small_t gives() { log_.n += 10; return log_.small_result; }
void nothing(small_t s) { log_.n += 100; log_.s = s; }

template<endianess E, signed_mode S>
struct rpc {
  using K = keyring<E, S, unevaluated<decltype(&takes), &takes>, unevaluated<decltype(&gives), &gives>, unevaluated<decltype(&nothing), &nothing>>;
  using KT = typename K::template key_t<unevaluated<decltype(&takes), &takes>>;
  using KG = typename K::template key_t<unevaluated<decltype(&gives), &gives>>;
  using KN = typename K::template key_t<unevaluated<decltype(&nothing), &nothing>>;

  static void any(bool free) {
    log_ = log_t();
    elem<padded_t>::any(log_.result, S, free ? POS : FREE);
    elem<small_t>::any(log_.small_result, S);
  }

  static void action_(const action &a, const byte_t *in, unsigned nin, const byte_t *out, unsigned nout) {
    io::source src(in);
    byte_t got[24];
    io::sink dst(got);
    auto s = [&]() { return src(); };
    auto d = [&](byte_t b) { dst(b); };
    va_eq(a.input_size(), nin, "announced input size of an action");
    va_eq(a.output_size(), nout, "announced output size of an action");
    a(s, d);
    va_eq(src.n, nin, "bytes consumed by an action");
    va_eq(dst.n, nout, "bytes produced by an action");
    keep(got, out, 0, nout, "bytes produced by an action");
  }

  template<typename D>
  static void buffered(D &&d, byte_t index, const byte_t *in, unsigned nin, const byte_t *out, unsigned nout) {
    packet_status st = d.put(index);
    for (unsigned i = 0; i < nin; i++) {
      va_check(st == packet_status::LOADING_PACKET, "loading until the last byte");
      st = d.put(in[i]);
    }
    va_check(st == packet_status::RESOLVED_PACKET, "resolved on the last byte");
    for (unsigned i = 0; i < nout; i++) {
      va_check(d.is_loaded(), "loaded while bytes remain");
      va_eq(d.get(), out[i], "bytes of the response");
    }
    va_check(!d.is_loaded(), "nothing after the response");
  }

  template<typename V>
  static void callee(V kind, byte_t index, const byte_t *in, unsigned nin, const byte_t *out, unsigned nout) {
    (void)kind;
    if (va_any())
      buffered(make_single_buffered_dispatcher(K{}, policy::any_callback), index, in, nin, out, nout);
    else if (va_any())
      buffered(make_double_buffered_dispatcher(K{}, policy::any_callback), index, in, nin, out, nout);
    else if (va_any())
      buffered(make_single_buffered_dispatcher(K{}, policy::weak_reference), index, in, nin, out, nout);
    else
      buffered(make_double_buffered_dispatcher(K{}, policy::weak_reference), index, in, nin, out, nout);
  }

  static void run_takes() {
    bool free = va_any();
    any(free);
    padded_t p;
    elem<padded_t>::any(p, S, free ? FREE : POS);
    small_t s;
    elem<small_t>::any(s, S);
    std::uint8_t u = va_u8();
    byte_t in[12], out[7];
    elem<padded_t>::put(p, in, E, S);
    in[7] = u;
    elem<small_t>::put(s, in + 8, E, S);
    elem<padded_t>::put(log_.result, out, E, S);

    KT k;
    va_eq(k.payload_length, 13, "announced length of a packet");
    byte_t packet[13];
    io::sink sk(packet);
    k(p, u, s).write_to([&](byte_t b) { sk(b); });
    va_eq(sk.n, 13, "length of a packet");
    va_eq(packet[0], 0, "index");
    keep(packet + 1, in, 0, 12, "arguments in a packet");
    elem<padded_t>::same(k.read_from(static_cast<const byte_t *>(out)), log_.result, "result read by the key");

    if (va_any()) {
      action a{takes, endianess_h<E>{}, signed_mode_h<S>{}};
      action_(a, in, 12, out, 7);
    } else if (va_any()) {
      no_storage_action a{unevaluated<decltype(&takes), &takes>{}, endianess_h<E>{}, signed_mode_h<S>{}};
      va_eq(a.input_size(), 12, "announced input size of an action");
      va_eq(a.output_size(), 7, "announced output size of an action");
      byte_t got[7];
      const byte_t *cin = in;
      a(cin, got);
      keep(got, out, 0, 7, "bytes produced by an action");
    } else
      callee(0, 0, in, 12, out, 7);
    va_eq(log_.n, 1, "called once");
    elem<padded_t>::same(log_.p, p, "argument rebuilt");
    elem<small_t>::same(log_.s, s, "argument rebuilt");
    va_eq(log_.u, u, "argument next to an extended one");
    va_reach("end");
  }
  static void run_gives() {
    any(true);
    byte_t out[4];
    elem<small_t>::put(log_.small_result, out, E, S);
    KG k;
    va_eq(k.payload_length, 1, "announced length of a packet");
    elem<small_t>::same(k.read_from(static_cast<const byte_t *>(out)), log_.small_result, "result read by the key");
    if (va_any()) {
      action a{gives, endianess_h<E>{}, signed_mode_h<S>{}};
      action_(a, out, 0, out, 4);
    } else
      callee(0, 1, out, 0, out, 4);
    va_eq(log_.n, 10, "called once");
    va_reach("end");
  }
  static void run_nothing() {
    any(true);
    small_t s;
    elem<small_t>::any(s, S);
    byte_t in[4];
    elem<small_t>::put(s, in, E, S);
    KN k;
    va_eq(k.payload_length, 5, "announced length of a packet");
    callee(0, 2, in, 4, in, 0);
    va_eq(log_.n, 100, "called once");
    elem<small_t>::same(log_.s, s, "argument rebuilt");
    va_reach("end");
  }
};
#define MORE(E, S)                                                                                                     \
  VA_PROP(takes__##E##_##S) { rpc<spec::E, spec::S>::run_takes(); }                                                    \
  VA_PROP(gives__##E##_##S) { rpc<spec::E, spec::S>::run_gives(); }                                                    \
  VA_PROP(nothing__##E##_##S) { rpc<spec::E, spec::S>::run_nothing(); }
MORE(LE, SM) MORE(BE, SM) MORE(LE, OC) MORE(BE, OC) MORE(LE, TC) MORE(BE, TC) MORE(LE, OB) MORE(BE, OB)
