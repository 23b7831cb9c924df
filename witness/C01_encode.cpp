#include "suite_int.hpp"
#include <upd/tuple.hpp>
VA_MATRIX(C01_encode, suite::encode)
VA_OTHERS(C01_encode, suite::encode)
