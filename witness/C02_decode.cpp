#include "suite_int.hpp"
#include <upd/tuple.hpp>
VA_MATRIX(C02_decode, suite::decode)
VA_OTHERS(C02_decode, suite::decode)
