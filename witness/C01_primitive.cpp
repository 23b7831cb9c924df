#include "suite_int.hpp"
#include <upd/tuple.hpp>
VA_MATRIX(C01_primitive, suite::primitive_encode)
