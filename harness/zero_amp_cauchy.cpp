#include "zero.hpp"
namespace rep { void zero_amp_cauchy(){ zero_register<bt::AMPTracker, be::CauchyEndgame>("amp cauchy"); } }
