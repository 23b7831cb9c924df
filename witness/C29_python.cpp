// C29: keys exposed to Python.
#include "pyring.hpp"
using namespace pyr;

constexpr keyring ring_{flist<f, f1, read_value, _set2, F11, f_arrays, is, functor, lambda_1>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};

//! A module which exposes the keyring
struct module_t {
  pb::module_ details{"_details"}, m{"module"};
  module_t() {
    pystub_init__details(details);
    upd::py::unpack_keyring(m, ring_);
  }
};

template<unsigned I>
pb::object key_of(pb::handle m) {
  auto *o = pb::model::find(m.ptr(), fn<I>::name());
  va_check(o != nullptr, "every function has a key under its own name");
  va_eq(o->k, pb::model::INSTANCE, "every function has a key under its own name");
  return pb::object(o);
}

template<unsigned I>
void encode() {
  module_t py;
  auto k = key_of<I>(py.m);
  request<I, spec::FE, spec::FS> r;
  r.any();
  auto p = call_with<I>(k.attr("encode"), r);
  va_eq(p.ptr()->k, pb::model::BYTES, "a packet is a bytes object");
  va_eq(p.ptr()->n, 1 + r.in, "the whole packet and nothing more");
  va_eq(p.ptr()->data[0], I, "the packet starts with the index");
  for (unsigned i = 0; i < r.in; i++)
    va_eq(p.ptr()->data[1 + i], r.bytes[i], "arguments of the packet");
  va_eq(rpc::log_.n, 0, "nothing is called");
  // keys have no state: the same packet again
  if (va_any()) {
    k.attr("decode")(pb::bytes("\1\2\3\4\5\6\7\10", 8));
    auto q = call_with<I>(k.attr("encode"), r);
    va_eq(q.ptr()->n, 1 + r.in, "the whole packet and nothing more");
    for (unsigned i = 0; i < r.in; i++)
      va_eq(q.ptr()->data[1 + i], r.bytes[i], "arguments of the packet");
  }
  va_reach("end");
}

template<unsigned I, typename R>
struct decoded {
  static void run() {
    module_t py;
    auto k = key_of<I>(py.m);
    request<I, spec::FE, spec::FS> r;
    r.any();
    byte_t wire[r.out + 2];
    for (unsigned i = 0; i < r.out; i++)
      wire[i] = r.response[i];
    wire[r.out] = va_u8();
    wire[r.out + 1] = va_u8();
    unsigned extra = va_any() ? 0 : 2;
    auto v = k.attr("decode")(pb::bytes(reinterpret_cast<const char *>(wire), r.out + extra));
    python_is<R>::check(fn<I>::res::r.v, v, "decoded value");
    va_reach("end");
  }
};
template<unsigned I>
struct decoded<I, void> {
  static void run() {
    module_t py;
    auto k = key_of<I>(py.m);
    auto v = k.attr("decode")(pb::bytes("", 0));
    va_check(v.is_none(), "nothing is decoded");
    va_reach("end");
  }
};
template<unsigned I>
void decode() {
  decoded<I, typename fn<I>::ret>::run();
}

template<unsigned... Is>
void names_(pb::handle m, seq<Is...>) {
  EL_EACH((void)key_of<Is>(m));
  EL_EACH(va_eq(key_of<Is>(m).attr("index")().template cast<std::uint64_t>(), Is, "the index is the position of the function"));
}
VA_PROP(names) {
  module_t py;
  names_(py.m, make<KEYS>{});
  va_eq(public_names(py.m), KEYS, "exactly one key per function");
  va_reach("end");
}

#define KEY(I)                                                                                                         \
  VA_PROP(encode_##I) { encode<I>(); }                                                                                 \
  VA_PROP(decode_##I) { decode<I>(); }
KEY(0) KEY(1) KEY(2) KEY(3) KEY(4) KEY(5) KEY(6) KEY(7) KEY(8)

// Functions whose parameters have template arguments (they are not called)
void f7(std::array<int, 16>, std::array<short, 32>);
std::array<std::uint8_t, 2> f77(std::array<std::array<std::uint8_t, 2>, 3>);
std::uint64_t __f7(std::array<int, 2>);
void f7(std::array<int, 16>, std::array<short, 32>) {}
std::array<std::uint8_t, 2> f77(std::array<std::array<std::uint8_t, 2>, 3>) { return {}; }
constexpr keyring other_{flist<f7, f77>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};
VA_PROP(templates) {
  pb::module_ d("_details"), m("module");
  pystub_init__details(d);
  upd::py::unpack_keyring(m, ring_);
  pb::module_ o("other");
  upd::py::unpack_keyring(o, other_);
  va_eq(public_names(o), 2, "exactly one key per function");
  va_eq(public_names(m), KEYS, "exactly one key per function");
  const char *n[] = {"f7", "f77"};
  for (unsigned i = 0; i < 2; i++) {
    auto *k = pb::model::find(o.ptr(), n[i]);
    va_check(k != nullptr, "every function has a key under its own name");
    va_eq(pb::handle(k).attr("index")().cast<std::uint64_t>(), i, "the index is the position of the function");
  }
  va_reach("end");
}

// Functions of the same signature at the same place of two keyrings
std::int16_t twin(std::int16_t);
void twin_1(std::uint8_t);
std::int16_t twin(std::int16_t x) { return x; }
void twin_1(std::uint8_t) {}
constexpr keyring first_{flist<functor, lambda_1>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};
constexpr keyring second_{flist<twin, twin_1>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};
VA_PROP(twins) {
  pb::module_ d("_details"), m("module"), o("other");
  pystub_init__details(d);
  bool same = va_any();
  auto &n = same ? m : o;
  upd::py::unpack_keyring(m, first_);
  upd::py::unpack_keyring(n, second_);
  if (!same)
    va_eq(public_names(m), 2, "exactly one key per function");
  va_eq(public_names(n), same ? 4 : 2, "exactly one key per function");
  const char *names[] = {"functor", "lambda_1", "twin", "twin_1"};
  for (unsigned i = 0; i < 4; i++) {
    auto *k = pb::model::find(i < 2 ? m.ptr() : n.ptr(), names[i]);
    va_check(k != nullptr, "every function has a key under its own name");
    va_eq(pb::handle(k).attr("index")().cast<std::uint64_t>(), i % 2, "the index is the position of the function");
  }
  va_reach("end");
}
// The same functions in the modules of two programs
VA_PROP(modules) {
  pb::module_ d("_details"), m("module"), o("other");
  pystub_init__details(d);
  upd::py::unpack_keyring(m, first_);
  upd::py::unpack_keyring(o, first_);
  va_eq(public_names(m), 2, "exactly one key per function");
  va_eq(public_names(o), 2, "exactly one key per function");
  va_reach("end");
}
