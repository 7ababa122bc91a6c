// trackers behind one interface
#pragma once
#include "tree.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/trackers/fixed_precision_tracker.hpp"
#include "bertini2/trackers/amp_tracker.hpp"
#include "bertini2/trackers/observers.hpp"

namespace rep {
namespace bt = bertini::tracking;
std::string code_name(bertini::SuccessCode c);
bt::Predictor predictor(std::string const& s);
double dnum(std::string const& s);          // a rational or decimal token as a double
mpq_rational qnum(std::string const& s);
bt::SteppingConfig stepping(Toks const& t, size_t& k);
bt::NewtonConfig newton(Toks const& t, size_t& k);

struct AnyTracker {
	virtual ~AnyTracker() = default;
	virtual std::string cmd(Toks const& t) = 0;      // t[0] command, t[1] id, ...
	virtual void* raw() = 0;                          // the tracker itself, of the type named by
	virtual std::string kind() const = 0;             // dbl, mp or amp
};
std::map<std::string,std::shared_ptr<AnyTracker>>& trackers();
void track_handlers(std::map<std::string,Handler>& h);
}
