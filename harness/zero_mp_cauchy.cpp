#include "zero.hpp"
namespace rep { void zero_mp_cauchy(){ zero_register<bt::MultiplePrecisionTracker, be::CauchyEndgame>("mp cauchy"); } }
