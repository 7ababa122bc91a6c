// endgames behind one interface
#pragma once
#include "track.hpp"
#include "bertini2/endgames.hpp"

namespace rep {
namespace be = bertini::endgame;
struct AnyEndgame {
	virtual ~AnyEndgame() = default;
	virtual std::string cmd(Toks const& t) = 0;
};
std::map<std::string,std::shared_ptr<AnyEndgame>>& endgames();
std::shared_ptr<AnyEndgame> make_ps(AnyTracker& t);
std::shared_ptr<AnyEndgame> make_cauchy(AnyTracker& t);
void endgame_handlers(std::map<std::string,Handler>& h);

template<class E> struct EndRecorder : public bertini::Observer<E>
{
	using C = typename E::BaseComplexType;
	std::string log; size_t n=0;
	static constexpr bool cauchy = !std::is_same<E,be::PowerSeriesEndgame<typename be::EGPrecSelector<typename E::TrackerType>::type>>::value;
	static bool empty(E const& g){ if constexpr (cauchy) return g.template GetPSEGTimes<C>().empty(); else return g.template GetTimes<C>().empty(); }
	template<class Deque> static std::string list(Deque const& d){ std::string s; for (auto& x: d) s += (s.empty()?"":" ")+show(x); return s; }
	template<class Deque> static std::string listv(Deque const& d){ std::string s; for (auto& x: d) s += (s.empty()?"":"/")+showv(x); return s; }
	void line(char const* name, E const& g, std::string const& more)
	{
		log += (log.empty()?"":";")+std::string(name)+"|"+(empty(g)?std::string("-"):show(g.LatestTime()))+"|"+std::to_string(g.CycleNumber())+"|"+more;
		++n;
	}
	static std::string data(E const& g)
	{	// the samples in use
		if constexpr (cauchy) return list(g.template GetCauchyTimes<C>())+"|"+listv(g.template GetCauchySamples<C>());
		else return list(g.template GetTimes<C>())+"|"+listv(g.template GetSamples<C>());
	}
	static std::string last(E const& g){ if constexpr (cauchy) return showv(g.template GetPSEGSamples<C>().back()); else return showv(g.template GetSamples<C>().back()); }
	void Observe(bertini::AnyEvent const& e) override
	{
		if (auto p = dynamic_cast<const be::CircleAdvanced<E>*>(&e)) { line("circle",p->Get(),show(p->NewTime())+"|"+showv(p->NewSample())); return; }
		if (auto p = dynamic_cast<const be::TimeAdvanced<E>*>(&e)) { line("advance",p->Get(),last(p->Get())); return; }
		if (auto p = dynamic_cast<const be::SampleRefined<E>*>(&e)) { line("refined",p->Get(),""); return; }
		if (auto p = dynamic_cast<const be::ClosedLoop<E>*>(&e)) { line("closed",p->Get(),data(p->Get())); return; }
		if (auto p = dynamic_cast<const be::ApproximatedRoot<E>*>(&e)) { line("approx",p->Get(),show(p->Get().ApproximateError())+"|"+showv(p->Get().template FinalApproximation<C>())+"|"+showv(p->Get().template PreviousApproximation<C>())+"|"+data(p->Get())); return; }
		if (auto p = dynamic_cast<const be::Converged<E>*>(&e)) { line("converged",p->Get(),show(p->Get().ApproximateError())); return; }
		if (auto p = dynamic_cast<const be::InEGOperatingZone<E>*>(&e)) { line("zone",p->Get(),""); return; }
		if (auto p = dynamic_cast<const be::MinTrackTimeReached<E>*>(&e)) { line("mintime",p->Get(),""); return; }
		if (auto p = dynamic_cast<const be::RefiningFailed<E>*>(&e)) { line("norefine",p->Get(),""); return; }
		if (auto p = dynamic_cast<const be::CycleNumTooHigh<E>*>(&e)) { line("cyclehigh",p->Get(),""); return; }
		if (auto p = dynamic_cast<const be::SecurityMaxNormReached<E>*>(&e)) { line("security",p->Get(),""); return; }
		if (auto p = dynamic_cast<const be::EndgameFailure<E>*>(&e)) { line("failure",p->Get(),""); return; }
		if (dynamic_cast<const be::PrecisionChanged<be::AMPEndgame>*>(&e)) { log += (log.empty()?"":";")+std::string("prec|-|0|"); return; }
		log += (log.empty()?"":";")+std::string("other|-|0|");
	}
};

template<class E> struct EndBox : public AnyEndgame
{
	using C = typename E::BaseComplexType;
	E g; EndRecorder<E> rec;
	EndBox(typename E::TrackerType const& t) : g(t) {}
	static constexpr bool cauchy = EndRecorder<E>::cauchy;
	static C num(std::string const& s, unsigned p){ return conv<C>::from(crat(s),p); }
	std::string state()
	{
		auto const& f = g.template FinalApproximation<C>(); auto const& q = g.template PreviousApproximation<C>();
		return showv(f)+" | "+showv(q)+" | "+show(g.ApproximateError())+" | "+std::to_string(g.CycleNumber())+" | "+(EndRecorder<E>::empty(g)?std::string("-"):show(g.LatestTime()))+" | "+std::to_string(f.size()?bertini::Precision(f):0)+" | "+(f.size()&&g.GetSystem().NumVariables()==f.size()?showv(g.GetSystem().DehomogenizePoint(f)):std::string());
	}
	std::string cmd(Toks const& a) override
	{
		std::string const& o = a[0];
		if (o=="eset") { // id name value ...
			auto eg = g.template Get<be::EndgameConfig>(); auto sc = g.template Get<be::SecurityConfig>();
			for (size_t i=2; i+1<a.size(); i+=2) { auto const& k=a[i]; auto const& v=a[i+1];
				if (k=="points") eg.num_sample_points = std::stoul(v); else if (k=="factor") eg.sample_factor = qnum(v); else if (k=="tol") eg.final_tolerance = dnum(v);
				else if (k=="mintime") eg.min_track_time = dnum(v); else if (k=="newton") eg.max_num_newton_iterations = std::stoul(v); else if (k=="refine") eg.sample_point_refinement_factor = dnum(v);
				else if (k=="level") sc.level = std::stoi(v); else if (k=="maxnorm") sc.max_norm = dnum(v);
				else if constexpr (cauchy) { auto cc = g.template Get<be::CauchyConfig>();
					if (k=="failsafe") cc.fail_safe_maximum_cycle_number = std::stoul(v); else if (k=="flat") cc.maximum_cauchy_ratio = dnum(v); else if (k=="stable") cc.num_needed_for_stabilization = std::stoul(v); else if (k=="cutoff") cc.cycle_cutoff_time = dnum(v);
					g.Set(cc); }
				else { auto pc = g.template Get<be::PowerSeriesConfig>();
					if (k=="maxcycle") pc.max_cycle_number = std::stoul(v); else if (k=="amplify") pc.cycle_number_amplification = std::stoul(v);
					g.Set(pc); } }
			g.Set(eg); g.Set(sc); return ""; }
		if (o=="egtr") { g.SetTracker(*static_cast<typename E::TrackerType const*>(trackers().at(a.at(2))->raw())); return ""; }
		if (o=="erun" || o=="erunp") { // prec start target x...
			unsigned p = std::stoul(a.at(2)); size_t n = a.size()-5;
			Vec<C> x = point<C>(a,5,n,p); C t0 = num(a.at(3),p), t1 = num(a.at(4)=="-" ? "0" : a.at(4),p);
			if (o=="erunp") x = g.GetSystem().RescalePointToFitPatch(x);
			auto c = a.at(4)=="-" ? g.Run(t0,x) : g.Run(t0,x,t1);
			return code_name(c)+" | "+state(); }
		if (o=="etrun") { // track from a time first: prec time0 start target x...
			unsigned p = std::stoul(a.at(2)); size_t n = a.size()-6;
			Vec<C> x = point<C>(a,6,n,p), y; C s0 = num(a.at(3),p), t0 = num(a.at(4),p), t1 = num(a.at(5),p);
			auto c = g.GetTracker().TrackPath(y,s0,t0,x);
			if (c!=bertini::SuccessCode::Success) return "track "+code_name(c)+" | "+state();
			if (!std::is_same<C,dbl>::value) { bertini::Precision(t0,bertini::Precision(y)); bertini::Precision(t1,bertini::Precision(y)); }
			c = g.Run(t0,y,t1);
			return code_name(c)+" | "+state(); }
		if (o=="estate") return state();
		if (o=="erec") { if (a.at(2)=="1") { rec.log.clear(); rec.n=0; g.AddObserver(rec); } else g.RemoveObserver(rec); return ""; }
		if (o=="edump") { auto s = rec.log; rec.log.clear(); rec.n=0; return s; }
		if (o=="eapprox") { // prec target n time... point...: an approximation from these samples
			if constexpr (!cauchy) {
				unsigned p = std::stoul(a.at(2)); C t1 = num(a.at(3),p); size_t n = std::stoul(a.at(4)), v = g.GetSystem().NumVariables();
				bertini::TimeCont<C> ts; bertini::SampCont<C> xs;
				for (size_t i=0;i<n;++i) ts.push_back(num(a.at(5+i),p));
				for (size_t i=0;i<n;++i) xs.push_back(point<C>(a,5+n+i*v,v,p));
				g.SetTimes(ts); g.SetSamples(xs); g.template SetRandVec<C>(v); g.template ComputeAllDerivatives<C>();
				Vec<C> r; auto c = g.ComputeApproximationOfXAtT0(r,t1);
				return code_name(c)+" | "+showv(r)+" | "+std::to_string(g.CycleNumber())+" | "+std::to_string(g.UpperBoundOnCycleNumber()); }
			throw std::logic_error("harness: eapprox"); }
		throw std::logic_error("harness: endgame command "+o);
	}
};
template<template<class> class F> std::shared_ptr<AnyEndgame> make_end(AnyTracker& t)
{
	if (t.kind()=="dbl") return std::make_shared<EndBox<F<be::EGPrecSelector<bt::DoublePrecisionTracker>::type>>>(*static_cast<bt::DoublePrecisionTracker*>(t.raw()));
	if (t.kind()=="mp") return std::make_shared<EndBox<F<be::EGPrecSelector<bt::MultiplePrecisionTracker>::type>>>(*static_cast<bt::MultiplePrecisionTracker*>(t.raw()));
	return std::make_shared<EndBox<F<be::EGPrecSelector<bt::AMPTracker>::type>>>(*static_cast<bt::AMPTracker*>(t.raw()));
}
}
