#include "suite_int.hpp"
#include <upd/tuple.hpp>
VA_MATRIX(C01_iterators, suite::encode_iterators)
