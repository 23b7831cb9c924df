// C15: buffered dispatchers only touch their own buffers, and these are large enough.
#include "shapes.hpp"
using namespace upd;
using namespace shapes;

template<typename R, typename D>
void drain(D &d) {
  if (va_any()) { // fetch some, a few too many maybe
    for (unsigned i = 0; i < 18; i++) {
      if (va_any())
        return;
      d.get();
    }
  } else if (va_any()) {
    unsigned n = 0;
    d.write_to([&](byte_t) { n++; });
    va_check(n <= 16, "a response is not longer than announced");
  } else if (va_any()) {
    byte_t out[20];
    d.write_to(static_cast<byte_t *>(out));
  } else {
    auto k = make_keyring(make_flist(UPD_CTREF(sink4), UPD_CTREF(sink16)), endianess_h<spec::BE>{}, signed_mode_h<spec::TC>{});
    unsigned n = 0;
    bool ok;
    if (va_any()) {
      ok = d.reply([&](byte_t) { n++; }, k.get(UPD_CTREF(sink4)));
      va_eq(n, ok ? 5 : 0, "bytes replied");
    } else {
      ok = d.reply([&](byte_t) { n++; }, k.get(UPD_CTREF(sink16)));
      va_eq(n, ok ? 17 : 0, "bytes replied");
    }
  }
}
template<typename R, typename D>
void history() {
  D d;
  while (va_more()) {
    if (va_any())
      drain<R>(d);
    byte_t i = va_u8();
    value = 0;
    if (va_any()) {
      va_assume(i >= R::n);
      va_check(d.put(i) == packet_status::DROPPED_PACKET, "status of the packet");
    } else {
      unsigned j = 0;
      while (j + 1 < R::n && va_any())
        j++;
      packet_status s = d.put(static_cast<byte_t>(j));
      for (unsigned k = 0; k < R::in(j); k++) {
        va_check(s == packet_status::LOADING_PACKET, "status of the packet");
        if (k == 0 && va_any())
          d.get();
        s = d.put(va_u8());
      }
      va_check(s == packet_status::RESOLVED_PACKET, "status of the packet");
      va_eq(d.is_loaded(), R::out(j) > 0, "the response is pending");
    }
    va_blur(&d, sizeof d);
  }
  va_reach("end");
}
template<typename R, endianess E, action_features A>
void all() {
  using D = dispatcher<typename R::template type<E>, A>;
  if (va_any())
    history<R, single_buffered_dispatcher<D>>();
  else
    history<R, double_buffered_dispatcher<D>>();
}
#define RING(NAME)                                                                                                     \
  VA_PROP(NAME##__any) { all<NAME, spec::LE, action_features::ANY>(); }                                                \
  VA_PROP(NAME##__weak) { all<NAME, spec::BE, action_features::WEAK_REFERENCE>(); }
#if !defined(PART) || PART == 0
RING(longer_requests)
RING(nothing)
RING(requests_only)
#endif
#if !defined(PART) || PART == 1
RING(longer_responses)
RING(responses_only)
#endif
#if !defined(PART) || PART == 2
RING(arrays)
#endif
#if !defined(PART) || PART == 3
RING(last_is_longest)
#endif
#if !defined(PART) || PART == 4
RING(extended_requests)
RING(extended_responses)
#endif
