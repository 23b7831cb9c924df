// C29, C30: keyrings whose index takes two bytes, exposed to Python.
#include "pyring.hpp"
using namespace upd;

namespace large {
extern unsigned calls, which;
unsigned calls, which;
} // namespace large
#define G(I)                                                                                                           \
  std::uint8_t g##I(std::uint8_t x);                                                                                   \
  std::uint8_t g##I(std::uint8_t x) {                                                                                  \
    large::calls++;                                                                                                    \
    large::which = I;                                                                                                  \
    return static_cast<std::uint8_t>(x + I);                                                                           \
  }
#define G10(D) G(D##0) G(D##1) G(D##2) G(D##3) G(D##4) G(D##5) G(D##6) G(D##7) G(D##8) G(D##9)
#define N10(D) g##D##0, g##D##1, g##D##2, g##D##3, g##D##4, g##D##5, g##D##6, g##D##7, g##D##8, g##D##9
#define G100(D) G10(D##0) G10(D##1) G10(D##2) G10(D##3) G10(D##4) G10(D##5) G10(D##6) G10(D##7) G10(D##8) G10(D##9)
#define N100(D) N10(D##0), N10(D##1), N10(D##2), N10(D##3), N10(D##4), N10(D##5), N10(D##6), N10(D##7), N10(D##8), N10(D##9)
#ifdef THOROUGH
G100(1) G100(2) G100(3)
constexpr keyring ring_{flist<N100(1), N100(2), N100(3)>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};
constexpr unsigned COUNT = 300;
#define LAST 399
#else
G100(1) G100(2) G10(30) G10(31) G10(32) G10(33) G10(34) G10(35)
constexpr keyring ring_{flist<N100(1), N100(2), N10(30), N10(31), N10(32), N10(33), N10(34), N10(35)>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};
constexpr unsigned COUNT = 260;
#define LAST 359
#endif
constexpr unsigned FIRST = 100;

unsigned some_key() {
  if (va_any())
    return 0;
  if (va_any())
    return 2;
  if (va_any())
    return 255;
  if (va_any())
    return 256;
  return COUNT - 1;
}
pb::object named(pb::handle m, unsigned i) {
  i += FIRST;
  char name[] = {'g', static_cast<char>('0' + i / 100), static_cast<char>('0' + i / 10 % 10), static_cast<char>('0' + i % 10), 0};
  auto *o = pb::model::find(m.ptr(), name);
  va_check(o != nullptr, "every function has a key under its own name");
  return pb::object(o);
}
struct module_t {
  pb::module_ details{"_details"}, m{"module"};
  module_t() { pystub_init__details(details); }
};

#ifdef KEYS_ONLY
VA_PROP(keys) {
  module_t py;
  upd::py::unpack_keyring(py.m, ring_);
  va_eq(pyr::public_names(py.m), COUNT, "exactly one key per function");
  unsigned i = some_key();
  auto k = named(py.m, i);
  va_eq(k.attr("index")().cast<std::uint64_t>(), i, "the index is the position of the function");
  std::uint8_t x = va_u8();
  auto p = k.attr("encode")(pb::int_(x));
  va_eq(p.ptr()->k, pb::model::BYTES, "a packet is a bytes object");
  va_eq(p.ptr()->n, 3, "the whole packet and nothing more");
  va_eq(p.ptr()->data[0], spec::byte_at(i, 2, 0, spec::FE), "the packet starts with the index");
  va_eq(p.ptr()->data[1], spec::byte_at(i, 2, 1, spec::FE), "the packet starts with the index");
  va_eq(p.ptr()->data[2], x, "arguments of the packet");
  char c = static_cast<char>(x);
  va_eq(k.attr("decode")(pb::bytes(&c, 1)).cast<std::uint64_t>(), x, "decoded value");
  va_reach("end");
}

#else
VA_PROP(dispatcher) {
  module_t py;
  upd::py::declare_dispatcher(py.m, "Dispatcher", ring_);
  auto d = py.m.attr("Dispatcher")();
  unsigned i = some_key();
  unsigned count = 0;
  if (va_any()) {
    d.attr("replace")(named(py.m, i), pyr::callable([&count](std::uint8_t x) {
                        count++;
                        return static_cast<std::uint8_t>(x ^ 0x55);
                      }));
    std::uint8_t x = va_u8();
    for (unsigned k = 0; k < 2; k++)
      va_check(d.attr("put")(pb::int_(spec::byte_at(i, 2, k, spec::FE))).cast<packet_status>() == packet_status::LOADING_PACKET, "status");
    va_check(d.attr("put")(pb::int_(x)).cast<packet_status>() == packet_status::RESOLVED_PACKET, "status");
    va_eq(count, 1, "the Python callable is called");
    va_eq(large::calls, 0, "no other function is called");
    va_eq(d.attr("get")().cast<std::uint64_t>(), x ^ 0x55, "its result is encoded");
  }
  unsigned j = some_key();
  if (j != i) {
    std::uint8_t x = va_u8();
    large::calls = count = 0;
    for (unsigned k = 0; k < 2; k++)
      va_check(d.attr("put")(pb::int_(spec::byte_at(j, 2, k, spec::FE))).cast<packet_status>() == packet_status::LOADING_PACKET, "status");
    va_check(d.attr("put")(pb::int_(x)).cast<packet_status>() == packet_status::RESOLVED_PACKET, "status");
    va_eq(count, 0, "no other action is replaced");
    va_eq(large::calls, 1, "no other action is replaced");
    va_eq(large::which, FIRST + j, "no other action is replaced");
    va_eq(d.attr("get")().cast<std::uint64_t>(), static_cast<std::uint8_t>(x + FIRST + j), "no other action is replaced");
  }
  va_reach("end");
}
#endif
