#include "zero.hpp"
namespace rep { void zero_amp_ps(){ zero_register<bt::AMPTracker, be::PowerSeriesEndgame>("amp ps"); } }
