#include "zero.hpp"
namespace rep { void zero_dbl_ps(){ zero_register<bt::DoublePrecisionTracker, be::PowerSeriesEndgame>("dbl ps"); } }
