// C35: the work done for one byte received or fetched is bounded: in any state, whatever the byte, a bounded number of
// instructions is executed and a bounded amount of stack is used. What the called function does is not counted.
#include "many.hpp"
#include "shapes.hpp"
using namespace upd;

// What is allowed in total: about ten times what the unoptimised code needs for the longest packet
#ifndef SCALE
#define SCALE 1
#endif
template<typename R>
constexpr unsigned long steps() {
  return (20000 + 1500 * R::longest) / SCALE;
}
template<typename R>
constexpr unsigned long stack() {
  return (20000 + 200 * R::longest) / SCALE;
}
struct many_shape {
  static constexpr unsigned longest = 2;
};

template<typename R, typename D>
void bytes(D &d, byte_t (*any_byte)()) {
  unsigned received = 0;
  while (va_more()) {
    const byte_t b = any_byte();
    if (va_any()) {
      va_budget(steps<R>(), stack<R>());
      const packet_status s = d.put(b);
      va_budget_end("bounded work: receiving a byte");
      received = s == packet_status::LOADING_PACKET ? received + 1 : 0;
      if (s == packet_status::RESOLVED_PACKET)
        va_reach("complete request");
      if (s == packet_status::DROPPED_PACKET)
        va_reach("dropped request");
    } else {
      va_budget(steps<R>(), stack<R>());
      d.is_loaded();
      d.get();
      va_budget_end("bounded work: fetching a byte");
    }
    if (received == 0)
      va_blur(&d, sizeof d);
    many::calls = many::which = 0;
  }
  va_reach("end");
}

template<typename R, typename D>
void small() {
  shapes::value = va_u64();
  D d;
  bytes<R>(d, [] { return byte_t(va_u8()); });
}
template<typename D>
void large() {
  D d;
  bytes<many_shape>(d, [] { // the byte may be part of an index, of which each value designates another function
    return byte_t(va_any() ? 0 : va_any() ? 1 : va_any() ? 43 : va_any() ? 44 : 255);
  });
}
#define RING(NAME)                                                                                                     \
  VA_PROP(NAME##__any) { small<shapes::NAME, single_buffered_dispatcher<dispatcher<shapes::NAME::type<spec::LE>, action_features::ANY>>>(); } \
  VA_PROP(NAME##__weak) { small<shapes::NAME, single_buffered_dispatcher<dispatcher<shapes::NAME::type<spec::BE>, action_features::WEAK_REFERENCE>>>(); } \
  VA_PROP(double_##NAME##__any) { small<shapes::NAME, double_buffered_dispatcher<dispatcher<shapes::NAME::type<spec::BE>, action_features::ANY>>>(); } \
  VA_PROP(double_##NAME##__weak) { small<shapes::NAME, double_buffered_dispatcher<dispatcher<shapes::NAME::type<spec::LE>, action_features::WEAK_REFERENCE>>>(); }
#if !defined(PART) || PART == 0
RING(longer_requests)
RING(nothing)
RING(requests_only)
RING(longer_responses)
#endif
#if !defined(PART) || PART == 1
RING(responses_only)
RING(arrays)
RING(last_is_longest)
VA_PROP(large__LE) { large<single_buffered_dispatcher<dispatcher<many::ring<spec::LE, spec::TC, 300>, action_features::ANY>>>(); }
VA_PROP(large__BE) { large<double_buffered_dispatcher<dispatcher<many::ring<spec::BE, spec::TC, 300>, action_features::WEAK_REFERENCE>>>(); }
#endif
