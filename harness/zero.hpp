// zero dim solves behind one interface
#pragma once
#include "endgame.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"

namespace rep {
namespace ba = bertini::algorithm;
namespace ss = bertini::start_system;
struct AnyZero {
	virtual ~AnyZero() = default;
	virtual std::string cmd(Toks const& t) = 0;
};
using MakeZero = std::shared_ptr<AnyZero>(*)(bertini::System const& target, bertini::System const* homotopy, ss::User const* start);
std::map<std::string,MakeZero>& zero_makers();       // "kind endgame start"
void zero_handlers(std::map<std::string,Handler>& h);

// every path tracked: from, to, start point, tolerance, step size it begins with, where it got to, and the precisions used
template<class T> struct TrackLog : public bertini::Observer<T>
{
	using E = typename bt::TrackerTraits<T>::EventEmitterType;
	std::string log, precs; bool open = false;   // last field: changes of precision after the track, before the next
	template<typename N> bool init(bertini::AnyEvent const& e)
	{
		auto p = dynamic_cast<const bt::Initializing<E,N>*>(&e);
		if (!p) return false;
		auto& q = p->Get();
		log += (log.empty()?"":";")+show(p->StartTime())+"|"+show(p->EndTime())+"|"+showv(p->StartPoint())+"|"+show(q.TrackingTolerance())+"|";
		precs.clear(); open = true;
		return true;
	}
	void Observe(bertini::AnyEvent const& e) override
	{
		if (init<dbl>(e)) return;
		if constexpr (std::is_same<T,bt::DoublePrecisionTracker>::value == false) if (init<mpfr_complex>(e)) return;
		if (auto p = dynamic_cast<const bt::TrackingStarted<E>*>(&e)) { log += show(p->Get().CurrentStepsize())+"|"; precs += " ="+std::to_string(p->Get().CurrentPrecision()); return; }
		if (auto p = dynamic_cast<const bt::PrecisionChanged<E>*>(&e)) { (open?precs:log) += " "+std::to_string(p->Next())+"@"+show(p->Get().CurrentTime()); return; }
		if (auto p = dynamic_cast<const bt::TrackingEnded<E>*>(&e)) { auto& q = p->Get(); log += show(q.CurrentTime())+"|"+showv(q.CurrentPoint())+"|"+precs+"|"+show(q.CurrentStepsize())+"|"+std::to_string(q.NumTotalStepsTaken())+"|"; open = false; return; }
	}
};

template<class T, template<class> class EG, class Start, template<class,class> class Policy> struct ZeroBox : public AnyZero
{
	using Z = ba::ZeroDim<T, EG<typename be::EGPrecSelector<T>::type>, bertini::System, Start, Policy>;
	using C = typename Z::BaseComplexType;
	Z z; TrackLog<T> log;
	static constexpr bool cauchy = EndRecorder<typename Z::EndgameT>::cauchy;
	template<class... A> ZeroBox(A const&... a) : z(a...) {}
	static C num(std::string const& s){ return conv<C>::from(crat(s),bertini::DefaultPrecision()); }
	std::string cmd(Toks const& a) override
	{
		std::string const& o = a[0];
		if (o=="zset") {
			auto tol = z.template Get<ba::TolerancesConfig>(); auto pp = z.template Get<ba::PostProcessingConfig>(); auto zc = z.template Get<typename Z::ZeroDimConf>(); auto ar = z.template Get<ba::AutoRetrackConfig>();
			auto eg = z.template GetFromEndgame<be::EndgameConfig>(); auto sc = z.template GetFromEndgame<be::SecurityConfig>();
			auto st = z.GetTracker().template Get<bt::SteppingConfig>();
			for (size_t i=2; i+1<a.size(); i+=2) { auto const& k=a[i]; auto const& v=a[i+1];
				if (k=="before") tol.newton_before_endgame = dnum(v); else if (k=="during") tol.newton_during_endgame = dnum(v);
				else if (k=="same") pp.same_point_tolerance = dnum(v);
				else if (k=="start") zc.start_time = num(v); else if (k=="boundary") zc.endgame_boundary = num(v); else if (k=="target") zc.target_time = num(v);
				else if (k=="prec") zc.initial_ambient_precision = std::stoul(v); else if (k=="resolve") zc.max_num_crossed_path_resolve_attempts = std::stoul(v);
				else if (k=="retrack") ar.midpath_decrease_tolerance_factor = dnum(v);
				else if (k=="mid") { ba::MidPathConfig m; m.same_point_tolerance = dnum(v); z.SetMidpath(m); }
				else if (k=="egtol") eg.final_tolerance = dnum(v); else if (k=="points") eg.num_sample_points = std::stoul(v);
				else if (k=="level") sc.level = std::stoi(v); else if (k=="maxnorm") sc.max_norm = dnum(v);
				else if (k=="pred") z.GetTracker().SetPredictor(predictor(v)); else if (k=="trunc") z.GetTracker().SetInfiniteTruncationTolerance(dnum(v));
				else if (k=="step") st.initial_step_size = qnum(v); else if (k=="maxsteps") st.max_num_steps = std::stoul(v);
				else throw std::logic_error("harness: zset "+k); }
			z.template Set<ba::TolerancesConfig>(tol); z.template Set<ba::PostProcessingConfig>(pp); z.template Set<typename Z::ZeroDimConf>(zc); z.template Set<ba::AutoRetrackConfig>(ar);
			z.SetToEndgame(eg); z.SetToEndgame(sc); z.GetTracker().template Set<bt::SteppingConfig>(st);
			return ""; }
		if (o=="zsetup") { z.DefaultSetup(); return ""; }
		if (o=="zrec") { if (a.at(2)=="1") { log.log.clear(); z.GetTracker().AddObserver(log); } else z.GetTracker().RemoveObserver(log); return ""; }
		if (o=="zdump") { auto s = log.log; log.log.clear(); return s; }
		if (o=="zsolve") { z.Solve(); return std::to_string(z.FinalSolutions().size())+" "+std::to_string(z.FinalSolutionMetadata().size())+" "+std::to_string(z.EndgameBoundaryData().size()); }
		if (o=="zpaths") { // every path: codes, indices, boundary point, end point, in user coordinates, ...
			std::string r;
			for (size_t i=0; i<z.FinalSolutions().size(); ++i) {
				auto& m = z.FinalSolutionMetadata()[i]; auto& b = z.EndgameBoundaryData()[i]; auto& x = z.FinalSolutions()[i];
				bool eg = m.endgame_success!=bertini::SuccessCode::NeverStarted;
				r += (i?";":"")+code_name(m.pre_endgame_success)+"|"+(eg?code_name(m.endgame_success):std::string("NeverStarted"))+"|"+std::to_string(m.path_index)+"|"+std::to_string(m.solution_index)+"|"
					+code_name(b.success_code)+"|"+showv(b.path_point)+"|"+show(b.last_used_stepsize)+"|"+(eg?showv(x):std::string())+"|"+(eg?showv(z.TargetSystem().DehomogenizePoint(x)):std::string())+"|"
					+std::to_string(m.multiplicity)+"|"+(eg?std::to_string(m.cycle_num):std::string("-"))+"|"+std::to_string(m.precision_changed)+"|"+(m.precision_changed?show(m.time_of_first_prec_increase):std::string("-"))+"|"+std::to_string(m.max_precision_used)
					+"|"+(eg?show(m.function_residual)+"|"+show(m.accuracy_estimate)+"|"+show(m.accuracy_estimate_user_coords)+"|"+show(m.final_time_used):std::string("-|-|-|-")); }
			return r; }
		if (o=="zinfo") return std::to_string(z.StartSystem().NumStartPoints())+" "+std::to_string(z.TargetSystem().NumVariables())+" "+std::to_string(z.Homotopy().NumVariables());
		throw std::logic_error("harness: zero "+o);
	}
};
template<class T, template<class> class EG> void zero_register(std::string const& name)
{
	using bertini::policy::CloneGiven; using bertini::policy::RefToGiven;
	zero_makers()[name+" td"] = [](bertini::System const& s, bertini::System const*, ss::User const*) -> std::shared_ptr<AnyZero> { return std::make_shared<ZeroBox<T,EG,ss::TotalDegree,CloneGiven>>(s); };
	zero_makers()[name+" mhom"] = [](bertini::System const& s, bertini::System const*, ss::User const*) -> std::shared_ptr<AnyZero> { return std::make_shared<ZeroBox<T,EG,ss::MHomogeneous,CloneGiven>>(s); };
	zero_makers()[name+" user"] = [](bertini::System const& s, bertini::System const* h, ss::User const* u) -> std::shared_ptr<AnyZero> { return std::make_shared<ZeroBox<T,EG,ss::User,RefToGiven>>(s,*u,*h); };
}
}
