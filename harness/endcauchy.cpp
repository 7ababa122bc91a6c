#include "endgame.hpp"
namespace rep { std::shared_ptr<AnyEndgame> make_cauchy(AnyTracker& t){ return make_end<be::CauchyEndgame>(t); } }
