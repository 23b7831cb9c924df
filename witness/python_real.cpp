// The programs of C29 and C30 with the actual pybind11 (to tell a rejected program from a limit of the model).
#include <array>
#include <upd/keyring.hpp>
#include <upd/python.hpp>

using three = std::array<std::uint8_t, 3>;
std::uint32_t f(std::uint8_t, std::int16_t) { return 0; }
void f1() {}
three f_arrays(std::array<std::int16_t, 2>, std::array<std::uint16_t, 2>) { return {}; }
bool is(std::uint16_t) { return true; }
struct {
  std::int16_t operator()(std::int16_t x) { return x; }
} functor;
auto lambda_1 = [](std::uint8_t) {};

constexpr upd::keyring ring{upd::flist<f, f1, f_arrays, is, functor, lambda_1>, upd::big_endian, upd::signed_magnitude};
constexpr upd::keyring other{upd::flist<f, f1, f_arrays, is>, upd::little_endian, upd::twos_complement};

#include "_details.cpp"
PYBIND11_MODULE(module, pymodule) {
  upd::py::unpack_keyring(pymodule, ring);
  upd::py::declare_dispatcher(pymodule, "Dispatcher", other);
}
