#include "zero.hpp"
namespace rep { void zero_dbl_cauchy(){ zero_register<bt::DoublePrecisionTracker, be::CauchyEndgame>("dbl cauchy"); } }
