// C14, C15, C16, C17: requests and responses of hundreds of bytes.
#include "long.hpp"
using namespace upd;
using namespace lengthy;

template<endianess E, signed_mode S, typename D>
struct machine {
  D d;
  byte_t request[N];
  unsigned from, to; // of the pending response
  static constexpr bool is_double = std::is_same<D, double_buffered_dispatcher<dispatcher<ring<E, S>, action_features::ANY>>>::value ||
                                    std::is_same<D, double_buffered_dispatcher<dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>>>::value;

  machine() : from(0), to(0) {}
  void fetch(unsigned n) {
    for (unsigned i = 0; i < n && from != to; i++) {
      va_eq(d.is_loaded(), true, "a response is pending until its last byte");
      va_eq(d.get(), sent[from++], "bytes of the response come in order");
    }
    va_eq(d.is_loaded(), from != to, "nothing is pending after the last byte");
  }
  //! A request received while the previous response is read
  void receive(unsigned i, bool meanwhile) {
    const unsigned n = in_size(i);
    for (unsigned j = 0; j < n; j++)
      request[j] = va_u8();
    calls = 0;
    for (unsigned j = 0; j <= n; j++) {
      va_eq(calls, 0, "nothing is called before the request is complete");
      if (is_double && meanwhile)
        fetch(1);
      va_eq(static_cast<unsigned>(d.put(j == 0 ? i : request[j - 1])),
            static_cast<unsigned>(j == n ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET), "status after each byte of a request");
    }
    resolved(i);
  }
  void resolved(unsigned i) {
    va_eq(calls, 1, "the designated function is called exactly once");
    va_eq(which, i, "no other function is called");
    for (unsigned j = 0; j < in_size(i) && i < 4; j++)
      va_eq(received[j], request[j], "arguments");
    for (unsigned j = 0; j < M && i == 4; j++) {
      byte_t expected[2];
      el::elem<std::uint16_t>::put(words[j], expected, E, S);
      va_eq(expected[0], request[2 * j], "arguments");
      va_eq(expected[1], request[2 * j + 1], "arguments");
    }
    from = 0;
    to = out_size(i);
    va_eq(d.is_loaded(), from != to, "a response is pending if there is one");
  }
  //! A request received at once
  void receive_from(unsigned i) {
    const unsigned n = in_size(i);
    for (unsigned j = 0; j < n; j++)
      request[j] = va_u8();
    unsigned taken = 0;
    calls = 0;
    va_eq(static_cast<unsigned>(d.read_from([&]() -> byte_t { return taken++ == 0 ? i : request[taken - 2]; })),
          static_cast<unsigned>(packet_status::RESOLVED_PACKET), "status of a complete request");
    va_eq(taken, n + 1, "exactly one request is consumed");
    resolved(i);
  }
  //! The rest of the response at once
  void write_to() {
    unsigned given = 0, left = to - from;
    d.write_to([&](byte_t b) {
      va_check(given < left, "no more than the response is written");
      va_eq(b, sent[from + given], "bytes of the response come in order");
      given++;
    });
    va_eq(given, left, "the whole response is written");
    from = to;
    va_eq(d.is_loaded(), false, "nothing is pending after the last byte");
  }
  //! The response as a request of a function of another keyring
  void reply(unsigned n) {
    unsigned given = 0;
    const bool fits = d.reply([&](byte_t b) {
      va_eq(b, given == 0 ? 1 : given <= to ? sent[given - 1] : 0, "the buffer carries the response, and nothing else");
      given++;
    }, key_of());
    va_eq(fits, from == 0 && to <= n, "the reply is sent when the whole response fits");
    va_eq(given, fits ? n + 1 : 0, "bytes sent");
    if (fits)
      from = to;
    va_eq(d.is_loaded(), from != to, "a refused reply changes nothing");
  }
  static void other() {}
  static void store(std::array<std::uint8_t, 299>) {}
  static void store_all(std::array<std::uint8_t, 300>) {}
#ifdef REPLY_ALL
  using key_type = unevaluated<decltype(&machine::store_all), &machine::store_all>;
  static constexpr unsigned reply_size = 300;
#else
  using key_type = unevaluated<decltype(&machine::store), &machine::store>;
  static constexpr unsigned reply_size = 299;
#endif
  static typename keyring<E, S, unevaluated<decltype(&machine::other), &machine::other>, key_type>::template key_t<key_type> key_of() { return {}; }
};
template<endianess E, signed_mode S, typename D>
void run() {
  machine<E, S, D> m;
  for (unsigned i = 0; i < N; i++)
    sent[i] = va_u8();
#if PART == 0
  // Byte after byte: every function, after a response which was read in part
  const unsigned first = va_any() ? 2 : 3, second = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : va_any() ? 3 : 4;
  m.receive(first, false);
  m.fetch(va_any() ? 0 : va_any() ? 255 : va_any() ? 256 : N);
  m.receive(second, va_any());
  m.fetch(N);
#elif PART == 1
  // At once
  m.receive_from(va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : va_any() ? 3 : 4);
  if (va_any())
    m.fetch(va_any() ? 1 : va_any() ? 255 : 256);
  m.write_to();
  m.receive_from(va_any() ? 2 : 4);
  m.write_to();
#else
  m.receive_from(va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : va_any() ? 3 : 4);
  if (va_any())
    m.fetch(va_any() ? 1 : 256);
  m.reply(m.reply_size);
  m.fetch(N);
#endif
  va_reach("end");
}
VA_PROP(single__LE) { run<spec::LE, spec::TC, single_buffered_dispatcher<dispatcher<ring<spec::LE, spec::TC>, action_features::ANY>>>(); }
VA_PROP(single__BE) { run<spec::BE, spec::OC, single_buffered_dispatcher<dispatcher<ring<spec::BE, spec::OC>, action_features::WEAK_REFERENCE>>>(); }
VA_PROP(double__LE) { run<spec::LE, spec::SM, double_buffered_dispatcher<dispatcher<ring<spec::LE, spec::SM>, action_features::WEAK_REFERENCE>>>(); }
VA_PROP(double__BE) { run<spec::BE, spec::TC, double_buffered_dispatcher<dispatcher<ring<spec::BE, spec::TC>, action_features::ANY>>>(); }
