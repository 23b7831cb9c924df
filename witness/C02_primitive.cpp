#include "suite_int.hpp"
#include <upd/tuple.hpp>
VA_MATRIX(C02_primitive, suite::primitive_decode)
