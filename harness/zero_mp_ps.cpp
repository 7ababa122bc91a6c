#include "zero.hpp"
namespace rep { void zero_mp_ps(){ zero_register<bt::MultiplePrecisionTracker, be::PowerSeriesEndgame>("mp ps"); } }
