// C14, C15: keyrings whose index takes two bytes.
#include "many.hpp"
using namespace upd;

template<typename D, endianess E, unsigned N>
void history() {
  D d;
  while (va_more()) {
    unsigned v;
    std::uint8_t x = va_u8();
    byte_t b[2];
    if (va_any()) {
      v = va_any() ? 0 : va_any() ? 1 : va_any() ? 255 : va_any() ? N / 2 : N - 1;
      b[0] = spec::byte_at(v, 2, 0, E);
      b[1] = spec::byte_at(v, 2, 1, E);
    } else {
      b[0] = va_u8();
      b[1] = va_u8();
      v = E == spec::LE ? b[0] | b[1] << 8 : b[1] | b[0] << 8;
      va_assume(v >= N);
    }
    many::calls = 0;
    va_eq(static_cast<unsigned>(d.put(b[0])), static_cast<unsigned>(packet_status::LOADING_PACKET), "status in the middle of the index");
    va_eq(many::calls, 0, "nothing is called before the request is complete");
    packet_status s = d.put(b[1]);
    if (v >= N)
      va_eq(static_cast<unsigned>(s), static_cast<unsigned>(packet_status::DROPPED_PACKET), "status after an unknown index");
    else {
      va_eq(static_cast<unsigned>(s), static_cast<unsigned>(packet_status::LOADING_PACKET), "status after a known index");
      va_eq(many::calls, 0, "nothing is called before the request is complete");
      va_eq(static_cast<unsigned>(d.put(x)), static_cast<unsigned>(packet_status::RESOLVED_PACKET), "status of a complete request");
      va_eq(many::calls, 1, "the designated function is called exactly once");
      va_eq(many::which, v, "no other function is called");
      va_eq(d.is_loaded(), true, "the response is pending");
      if (va_any()) {
        va_eq(d.get(), static_cast<std::uint8_t>(x + v), "the response is pending");
        va_eq(d.is_loaded(), false, "the response was fetched");
      }
    }
    va_blur(&d, sizeof d);
    many::calls = many::which = 0;
  }
  va_reach("end");
}
#define LARGE(N, A)                                                                                                    \
  VA_PROP(single_##N##__LE) { history<single_buffered_dispatcher<dispatcher<many::ring<spec::LE, spec::TC, N>, action_features::A>>, spec::LE, N>(); } \
  VA_PROP(single_##N##__BE) { history<single_buffered_dispatcher<dispatcher<many::ring<spec::BE, spec::OB, N>, action_features::A>>, spec::BE, N>(); } \
  VA_PROP(double_##N##__LE) { history<double_buffered_dispatcher<dispatcher<many::ring<spec::LE, spec::OC, N>, action_features::A>>, spec::LE, N>(); } \
  VA_PROP(double_##N##__BE) { history<double_buffered_dispatcher<dispatcher<many::ring<spec::BE, spec::TC, N>, action_features::A>>, spec::BE, N>(); }
LARGE(256, ANY)
LARGE(300, WEAK_REFERENCE)
