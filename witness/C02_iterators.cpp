#include "suite_int.hpp"
#include <upd/tuple.hpp>
VA_MATRIX(C02_iterators, suite::decode_iterators)
