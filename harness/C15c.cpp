#define EDSP_FAMILY ChebyshevII
#include "iir.hpp"
VP_FAMILY("chebyshev II", 200000, 5000000, "one design of one type and order; response compared at 11 to 13 frequencies; non-trivial: at least 6 of them are judged to better than 10%") { VP_DISPATCH(designs); }
