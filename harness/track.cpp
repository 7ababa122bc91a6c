#include "track.hpp"
namespace rep {
using bertini::SuccessCode;
using bertini::AnyEvent;
using bertini::AnyObserver;

std::string code_name(SuccessCode c)
{
	switch (c) {
		case SuccessCode::Success: return "Success";
		case SuccessCode::HigherPrecisionNecessary: return "HigherPrecisionNecessary";
		case SuccessCode::ReduceStepSize: return "ReduceStepSize";
		case SuccessCode::GoingToInfinity: return "GoingToInfinity";
		case SuccessCode::FailedToConverge: return "FailedToConverge";
		case SuccessCode::MatrixSolveFailure: return "MatrixSolveFailure";
		case SuccessCode::MatrixSolveFailureFirstPartOfPrediction: return "MatrixSolveFailureFirstPartOfPrediction";
		case SuccessCode::MaxNumStepsTaken: return "MaxNumStepsTaken";
		case SuccessCode::MaxPrecisionReached: return "MaxPrecisionReached";
		case SuccessCode::MinStepSizeReached: return "MinStepSizeReached";
		case SuccessCode::Failure: return "Failure";
		case SuccessCode::SingularStartPoint: return "SingularStartPoint";
		case SuccessCode::ExternallyTerminated: return "ExternallyTerminated";
		case SuccessCode::MinTrackTimeReached: return "MinTrackTimeReached";
		case SuccessCode::SecurityMaxNormReached: return "SecurityMaxNormReached";
		case SuccessCode::CycleNumTooHigh: return "CycleNumTooHigh";
		default: return "code"+std::to_string(int(c));
	}
}
bt::Predictor predictor(std::string const& s)
{
	static std::map<std::string,bt::Predictor> m{{"Constant",bt::Predictor::Constant},{"Euler",bt::Predictor::Euler},{"Heun",bt::Predictor::Heun},{"RK4",bt::Predictor::RK4},{"HeunEuler",bt::Predictor::HeunEuler},{"RKNorsett34",bt::Predictor::RKNorsett34},{"RKF45",bt::Predictor::RKF45},{"RKCashKarp45",bt::Predictor::RKCashKarp45},{"RKDormandPrince56",bt::Predictor::RKDormandPrince56},{"RKVerner67",bt::Predictor::RKVerner67}};
	return m.at(s);
}
mpq_rational qnum(std::string const& s)
{
	auto e = s.find('e'); // NeM
	if (e==std::string::npos) return mpq_rational(s);
	mpq_rational m(s.substr(0,e)); int x = std::stoi(s.substr(e+1));
	mpq_rational p(1); for (int i=0;i<std::abs(x);++i) p *= 10;
	return x<0 ? mpq_rational(m/p) : mpq_rational(m*p);
}
double dnum(std::string const& s){ auto q = qnum(s); return q.convert_to<double>(); }
bt::SteppingConfig stepping(Toks const& t, size_t& k)
{
	bt::SteppingConfig s;
	s.initial_step_size = qnum(t.at(k++)); s.max_step_size = qnum(t.at(k++)); s.min_step_size = qnum(t.at(k++));
	s.step_size_success_factor = qnum(t.at(k++)); s.step_size_fail_factor = qnum(t.at(k++));
	s.consecutive_successful_steps_before_stepsize_increase = std::stoul(t.at(k++));
	s.min_num_steps = std::stoul(t.at(k++)); s.max_num_steps = std::stoul(t.at(k++));
	return s;
}
bt::NewtonConfig newton(Toks const& t, size_t& k)
{
	bt::NewtonConfig n; n.min_num_newton_iterations = std::stoul(t.at(k++)); n.max_num_newton_iterations = std::stoul(t.at(k++)); return n;
}
std::map<std::string,std::shared_ptr<AnyTracker>>& trackers(){ static std::map<std::string,std::shared_ptr<AnyTracker>> m; return m; }

template<typename T> static std::string anyp(T const& v, unsigned){ return showv(v); }

// writes down every event, with what the tracker shows at that moment
template<class T> struct Recorder : public bertini::Observer<T>
{
	using E = typename bt::TrackerTraits<T>::EventEmitterType;
	std::string log; size_t n=0;
	template<class X> bool head(char const* name, X const* p)
	{
		if (!p) return false;
		auto& t = p->Get();
		log += (log.empty()?"":";")+std::string(name)+"|"+show(t.CurrentTime())+"|"+show(t.DeltaT())+"|"+show(t.CurrentStepsize())+"|"+std::to_string(t.CurrentPrecision())+"|"+std::to_string(t.NumTotalStepsTaken())+"|";
		++n;
		return true;
	}
	template<class X> bool simple(char const* name, AnyEvent const& e, bool point=false)
	{
		auto p = dynamic_cast<const X*>(&e);
		if (!head(name,p)) return false;
		if (point) log += showv(p->Get().CurrentPoint());
		return true;
	}
	template<typename N> bool typed(AnyEvent const& e)
	{
		if (auto p = dynamic_cast<const bt::Initializing<E,N>*>(&e)) {
			log += (log.empty()?"":";")+std::string("init|")+show(p->StartTime())+"|"+show(p->EndTime())+"|0|"+std::to_string(p->Get().CurrentPrecision())+"|0|"+showv(p->StartPoint()); ++n; return true; }
		if (auto p = dynamic_cast<const bt::SuccessfulPredict<E,N>*>(&e)) { head("pred",p); log += showv(p->ResultingPoint()); return true; }
		if (auto p = dynamic_cast<const bt::SuccessfulCorrect<E,N>*>(&e)) { head("corr",p); log += showv(p->ResultingPoint()); return true; }
		return false;
	}
	void Observe(AnyEvent const& e) override
	{
		if (typed<dbl>(e) || typed<mpfr_complex>(e)) return;
		if (simple<bt::NewStep<E>>("new",e,true)) return;
		if (simple<bt::SuccessfulStep<E>>("ok",e,true)) return;
		if (simple<bt::FailedStep<E>>("fail",e,true)) return;
		if (simple<bt::SingularStartPoint<E>>("singstart",e)) return;
		if (simple<bt::TrackingStarted<E>>("started",e,true)) return;
		if (simple<bt::TrackingEnded<E>>("ended",e)) return;
		if (simple<bt::InfinitePathTruncation<E>>("inf",e,true)) return;
		if (auto p = dynamic_cast<const bt::PrecisionChanged<E>*>(&e)) { head("prec",p); log += std::to_string(p->Previous())+" "+std::to_string(p->Next()); return; }
		if (simple<bt::PredictorHigherPrecisionNecessary<E>>("predhigher",e)) return;
		if (simple<bt::CorrectorHigherPrecisionNecessary<E>>("corrhigher",e)) return;
		if (simple<bt::FirstStepPredictorMatrixSolveFailure<E>>("predfail1",e)) return;
		if (simple<bt::PredictorMatrixSolveFailure<E>>("predfail",e)) return;
		if (simple<bt::CorrectorMatrixSolveFailure<E>>("corrfail",e)) return;
		log += (log.empty()?"":";")+std::string("other|||||"); ++n;
	}
};
// counts, and removes itself or another observer when it has seen k events
template<class T> struct Counter : public bertini::Observer<T>
{
	using E = typename bt::TrackerTraits<T>::EventEmitterType;
	unsigned long n=0, at=0; AnyObserver* who=nullptr; AnyObserver* add=nullptr;
	void Observe(AnyEvent const& e) override
	{
		++n;
		if (at && n==at)
			if (auto p = dynamic_cast<const bt::TrackingEvent<E>*>(&e)) { if (who) p->Get().RemoveObserver(*who); if (add) p->Get().AddObserver(*add); }
	}
};

template<class T> struct Box : public AnyTracker
{
	using C = typename bt::TrackerTraits<T>::BaseComplexType;
	using R = typename bt::TrackerTraits<T>::BaseRealType;
	T t;
	Recorder<T> rec;
	static std::map<std::string,std::shared_ptr<AnyObserver>>& all(){ static std::map<std::string,std::shared_ptr<AnyObserver>> m; return m; } // shared by the trackers of a type
	std::map<std::string,std::shared_ptr<AnyObserver>>& obs = all();
	Box(bertini::System const& s) : t(s) {}
	void* raw() override { return &t; }
	std::string kind() const override { return std::is_same<T,bt::AMPTracker>::value ? "amp" : std::is_same<C,dbl>::value ? "dbl" : "mp"; }
	static C num(std::string const& s, unsigned p){ return conv<C>::from(crat(s),p); }
	template<typename N> std::string refine(Toks const& a)
	{	// trefine id type prec tol|- iters time x...
		unsigned p = std::stoul(a.at(3)); size_t n = a.size()-7;
		Vec<N> x = point<N>(a,7,n,p), y; N tm = conv<N>::from(crat(a.at(6)),p);
		SuccessCode c = a.at(4)=="-" ? t.Refine(y,x,tm) : t.Refine(y,x,tm,dnum(a.at(4)),std::stoul(a.at(5)));
		return code_name(c)+" | "+showv(y)+" | "+std::to_string(y.size()?bertini::Precision(y):0);
	}
	std::string cmd(Toks const& a) override
	{
		std::string const& o = a[0];
		if (o=="tsetup") { size_t k=5; auto s=stepping(a,k); auto n=newton(a,k); t.Setup(predictor(a.at(2)),dnum(a.at(3)),dnum(a.at(4)),s,n); return ""; }
		if (o=="tpred") { t.SetPredictor(predictor(a.at(2))); return ""; }
		if (o=="ttol") { t.SetTrackingTolerance(dnum(a.at(2))); return show(t.TrackingTolerance()); }
		if (o=="ttrunc") { t.SetInfiniteTruncationTolerance(dnum(a.at(2))); return show(t.InfiniteTruncationTolerance()); }
		if (o=="tinf") { t.SetInfiniteTruncation(a.at(2)=="1"); return ""; }
		if (o=="treinit") { t.ReinitializeInitialStepSize(a.at(2)=="1"); return ""; }
		if (o=="tstep") { t.SetStepSize(R(qnum(a.at(2)).convert_to<double>())); return ""; }
		if (o=="tsys") { t.SetSystem(W().s(a.at(2))); return ""; }
		if (o=="tamp") { // maxprec stepsbeforedecrease maxdecreases
			if constexpr (std::is_same<T,bt::AMPTracker>::value) {
				auto c = bt::AMPConfigFrom(t.GetSystem()); c.maximum_precision = std::stoul(a.at(2)); c.consecutive_successful_steps_before_precision_decrease = std::stoul(a.at(3)); c.max_num_precision_decreases = std::stoul(a.at(4));
				t.PrecisionSetup(c); }
			return ""; }
		if (o=="tpres") { if constexpr (std::is_same<T,bt::AMPTracker>::value) t.PrecisionPreservation(a.at(2)=="1"); return ""; }
		if (o=="ttrack" || o=="ttrackp") { // prec t0 t1 x...
			unsigned p = std::stoul(a.at(2)), pt = a.at(2).find(':')==std::string::npos ? p : std::stoul(a.at(2).substr(a.at(2).find(':')+1)); size_t n = a.size()-5; // prec: of the point, or point:times
			Vec<C> x = point<C>(a,5,n,p), y; C t0 = num(a.at(3),pt), t1 = num(a.at(4),pt);
			if (o=="ttrackp") { // an affine start point: its representative on the patch
				if (bertini::Precision(x)!=t.GetSystem().precision() && !std::is_same<C,dbl>::value) t.GetSystem().precision(p);
				x = t.GetSystem().RescalePointToFitPatch(x); }
			auto c = t.TrackPath(y,t0,t1,x);
			if (o=="ttrackp") {
				Vec<C> cp = t.CurrentPoint();
				return code_name(c)+" | "+(y.size() ? showv(t.GetSystem().DehomogenizePoint(y)) : std::string())+" | "+show(t.CurrentTime())+" | "+std::to_string(t.NumTotalStepsTaken())+" | "+std::to_string(t.CurrentPrecision())+" | "+std::to_string(y.size()?bertini::Precision(y):0)+" | "+std::to_string(bertini::DefaultPrecision())+" | "+std::to_string(t.GetSystem().precision())+" | "+show(t.CurrentStepsize())+" | "+showv(t.GetSystem().DehomogenizePoint(cp)); }
			return code_name(c)+" | "+showv(y)+" | "+show(t.CurrentTime())+" | "+std::to_string(t.NumTotalStepsTaken())+" | "+std::to_string(t.CurrentPrecision())+" | "+std::to_string(y.size()?bertini::Precision(y):0)+" | "+std::to_string(bertini::DefaultPrecision())+" | "+std::to_string(t.GetSystem().precision())+" | "+show(t.CurrentStepsize())+" | "+showv(t.CurrentPoint()); }
		if (o=="trefine") { if (a.at(2)=="dbl") { if constexpr (!std::is_same<T,bt::MultiplePrecisionTracker>::value) return refine<dbl>(a); } else { if constexpr (!std::is_same<T,bt::DoublePrecisionTracker>::value) return refine<mpfr_complex>(a); } throw std::logic_error("harness: refine type"); }
		if (o=="trec") { if (a.at(2)=="1") { rec.log.clear(); rec.n=0; t.AddObserver(rec); } else t.RemoveObserver(rec); return ""; }
		if (o=="tdump") { auto s = rec.log; rec.log.clear(); rec.n=0; return s; }
		if (o=="tstat") return show(t.LatestConditionNumber())+" "+show(t.LatestErrorEstimate())+" "+show(t.LatestNormOfStep());
		// observers: tobs id name kind
		if (o=="tobsmake") {
			std::string const& k = a.at(3);
			if (k=="count") obs[a.at(2)] = std::make_shared<Counter<T>>();
			else if (k=="rec") obs[a.at(2)] = std::make_shared<Recorder<T>>();
			else if (k=="precacc") obs[a.at(2)] = std::make_shared<bt::PrecisionAccumulator<T>>();
			else if (k=="first") obs[a.at(2)] = std::make_shared<bt::FirstPrecisionRecorder<T>>();
			else if (k=="minmax") obs[a.at(2)] = std::make_shared<bt::MinMaxPrecisionRecorder<T>>();
			else if (k=="path") { if constexpr (std::is_same<T,bt::AMPTracker>::value) obs[a.at(2)] = std::make_shared<bt::AMPPathAccumulator<T>>(); }
			else throw std::logic_error("harness: observer kind");
			return ""; }
		if (o=="tobsadd") { t.AddObserver(*obs.at(a.at(2))); return ""; }
		if (o=="tobsrem") { t.RemoveObserver(*obs.at(a.at(2))); return ""; }
		if (o=="tobsat") { auto& c = dynamic_cast<Counter<T>&>(*obs.at(a.at(2))); c.at = std::stoul(a.at(3)); if (c.at) c.at += c.n; c.who = a.at(4)=="-" ? nullptr : obs.at(a.at(4)).get(); c.add = a.at(5)=="-" ? nullptr : obs.at(a.at(5)).get(); return ""; }
		if (o=="tobsread") {
			auto p = obs.at(a.at(2)).get();
			if (auto q = dynamic_cast<Counter<T>*>(p)) { auto s = std::to_string(q->n); return s; }
			if (auto q = dynamic_cast<Recorder<T>*>(p)) { auto s = std::to_string(q->n); return s; }
			if (auto q = dynamic_cast<bt::PrecisionAccumulator<T>*>(p)) { std::string s; for (auto x: q->Precisions()) s += (s.empty()?"":" ")+std::to_string(x); return s; }
			if (auto q = dynamic_cast<bt::FirstPrecisionRecorder<T>*>(p)) return std::to_string(q->DidPrecisionIncrease())+" "+std::to_string(q->StartPrecision())+" "+(q->DidPrecisionIncrease()?std::to_string(q->NextPrecision())+" "+show(q->TimeOfIncrease()):std::string("-"));
			if (auto q = dynamic_cast<bt::MinMaxPrecisionRecorder<T>*>(p)) return std::to_string(q->MinPrecision())+" "+std::to_string(q->MaxPrecision());
			if constexpr (std::is_same<T,bt::AMPTracker>::value) if (auto q = dynamic_cast<bt::AMPPathAccumulator<T>*>(p)) { std::string s; for (auto& v: q->Path()) s += (s.empty()?"":";")+showv(v); return s; }
			throw std::logic_error("harness: observer"); }
		throw std::logic_error("harness: tracker command "+o);
	}
};

void track_handlers(std::map<std::string,Handler>& h)
{
	h["reset"] = [](Toks const&){ trackers().clear(); Box<bt::DoublePrecisionTracker>::all().clear(); Box<bt::MultiplePrecisionTracker>::all().clear(); Box<bt::AMPTracker>::all().clear(); W().clear(); bertini::DefaultPrecision(16); return std::string(); };
	h["tmake"] = [](Toks const& t){
		auto& s = W().s(t.at(3)); std::shared_ptr<AnyTracker> b;
		if (t.at(2)=="dbl") b = std::make_shared<Box<bt::DoublePrecisionTracker>>(s);
		else if (t.at(2)=="mp") b = std::make_shared<Box<bt::MultiplePrecisionTracker>>(s);
		else b = std::make_shared<Box<bt::AMPTracker>>(s);
		trackers()[t.at(1)] = b; return std::string(); };
	for (std::string o : {"tsetup","tpred","ttol","ttrunc","tinf","treinit","tstep","tsys","tamp","tpres","ttrack","ttrackp","trefine","trec","tdump","tstat","tobsmake","tobsadd","tobsrem","tobsat","tobsread"})
		h[o] = [](Toks const& t){ return trackers().at(t.at(1))->cmd(t); };
	h["tcost"] = [](Toks const& t){ // minprec minstep maxprec maxstep digitsB newtonits order
		namespace b = bertini::tracking; auto old = bertini::DefaultPrecision(); bertini::DefaultPrecision(50); unsigned p; bertini::mpfr_float s;
		b::MinimizeTrackingCost<bertini::mpfr_float>(p,s,std::stoul(t.at(1)),bertini::mpfr_float(qnum(t.at(2))),std::stoul(t.at(3)),bertini::mpfr_float(qnum(t.at(4))),std::stoul(t.at(5)),std::stoul(t.at(6)),std::stoul(t.at(7)));
		auto r = std::to_string(p)+" "+show(s); bertini::DefaultPrecision(old); return r; };
	h["precget"] = [](Toks const&){ return std::to_string(bertini::DefaultPrecision()); };
	h["tcrit"] = [](Toks const& t){ // the AMP decision functions: precision digitsB newtonits order
		namespace b = bertini::tracking; auto old = bertini::DefaultPrecision(); bertini::DefaultPrecision(50);
		auto r = show(b::StepsizeSatisfyingCriterionB(std::stoul(t.at(1)),std::stoul(t.at(2)),std::stoul(t.at(3)),std::stoul(t.at(4)))); bertini::DefaultPrecision(old); return r; };
}
}
