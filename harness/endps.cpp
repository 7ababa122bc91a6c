#include "endgame.hpp"
namespace rep { std::shared_ptr<AnyEndgame> make_ps(AnyTracker& t){ return make_end<be::PowerSeriesEndgame>(t); } }
