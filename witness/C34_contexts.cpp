// C34: receiving bytes and fetching response bytes, in two contexts of which one interrupts the other. In double-buffered
// mode, neither writes what the other one reads or writes, whatever the state, as long as no request gets complete: then
// any interleaving of their instructions amounts to one operation after the other.
#include "many.hpp"
#include "shapes.hpp"
using namespace upd;

template<typename D, typename K>
void fetch(D &d, K reply) {
  if (va_any())
    d.get();
  else if (va_any())
    d.is_loaded();
  else if (va_any())
    d.write_to([](byte_t) {});
  else if (va_any()) {
    byte_t out[20];
    d.write_to(static_cast<byte_t *>(out));
  } else
    d.reply([](byte_t) {}, reply);
}

template<typename D>
void contexts(D &d, byte_t (*any_byte)()) {
  const auto k = make_keyring(make_flist(UPD_CTREF(shapes::sink16)), endianess_h<spec::BE>{}, signed_mode_h<spec::TC>{});
  const auto reply = k.get(UPD_CTREF(shapes::sink16));
  unsigned received = 0;
  while (va_more()) {
    const byte_t b = any_byte();
    packet_status s;
    if (va_any()) {
      va_context(1);
      s = d.put(b);
      va_context(0);
      if (s != packet_status::RESOLVED_PACKET) {
        if (va_any()) {
          va_context(2);
          fetch(d, reply);
          va_context(0);
          va_disjoint("receiving a byte does not disturb the fetching it interrupts");
          va_reach("interrupted fetching");
        }
      } else
        va_reach("complete request");
    } else {
      va_context(2);
      fetch(d, reply);
      va_context(1);
      s = d.put(b);
      va_context(0);
      if (s != packet_status::RESOLVED_PACKET) {
        va_disjoint("fetching does not disturb the reception it interrupts");
        va_reach(received > 0 ? "interrupted reception" : "interrupted idleness");
      }
    }
    va_context(3);
    received = s == packet_status::LOADING_PACKET ? received + 1 : 0;
    if (received == 0)
      va_blur(&d, sizeof d);
    many::calls = many::which = 0;
  }
  va_reach("end");
}

template<typename R, endianess E, action_features A>
void small() {
  shapes::value = va_u64();
  double_buffered_dispatcher<dispatcher<typename R::template type<E>, A>> d;
  contexts(d, [] { return byte_t(va_u8()); });
}
template<endianess E, action_features A, unsigned N>
void large() {
  double_buffered_dispatcher<dispatcher<many::ring<E, spec::TC, N>, A>> d;
  contexts(d, [] { // the byte may be part of an index, of which each value designates another function
    return byte_t(va_any() ? 0 : va_any() ? 1 : va_any() ? 43 : va_any() ? 44 : 255);
  });
}
#define RING(NAME)                                                                                                     \
  VA_PROP(NAME##__any) { small<shapes::NAME, spec::LE, action_features::ANY>(); }                                      \
  VA_PROP(NAME##__weak) { small<shapes::NAME, spec::BE, action_features::WEAK_REFERENCE>(); }
RING(longer_requests)
RING(nothing)
RING(requests_only)
RING(longer_responses)
RING(responses_only)
RING(arrays)
RING(last_is_longest)
VA_PROP(large__LE) { large<spec::LE, action_features::ANY, 300>(); }
VA_PROP(large__BE) { large<spec::BE, action_features::WEAK_REFERENCE, 300>(); }
