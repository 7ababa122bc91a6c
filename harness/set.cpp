// settings text: every configuration structure, as a list of its fields
#include "rep.hpp"
#include "bertini2/system/system.hpp"
#include "bertini2/nag_algorithms/common/config.hpp"
#include "bertini2/endgames/config.hpp"
#include "bertini2/trackers/config.hpp"
#include "bertini2/io/parsing/settings_parsers.hpp"
#include "bertini2/io/parsing/classic_utilities.hpp"
#include <sstream>
#include <iomanip>
#include <unistd.h>
#include <fstream>
namespace rep {
using namespace bertini;
using namespace bertini::tracking;
using namespace bertini::algorithm;
using namespace bertini::endgame;
static std::string un(std::string const& s)
{
	std::string r;
	for (size_t i=0;i<s.size();++i)
		if (s[i]=='\\' && i+1<s.size()) { ++i; r += s[i]=='n' ? '\n' : s[i]=='t' ? '\t' : s[i]=='s' ? ' ' : s[i]; }
		else r += s[i];
	return r;
}
struct Hush { std::stringstream sink; std::streambuf* old; Hush() : old(std::cout.rdbuf(sink.rdbuf())) {} ~Hush(){ std::cout.rdbuf(old); } };
template<class T> std::string d(T const& x){ std::ostringstream o; o << std::setprecision(17) << x; return o.str(); }
static std::string d(mpq_rational const& x){ return x.str(); }
static std::string d(mpfr_float const& x){ return x.str(0); }
static std::string d(dbl const& x){ return d(x.real())+(x.imag()!=0 ? "?" : ""); }
static std::string d(mpfr_complex const& x){ return mpfr_float(x.real()).str(0)+(x.imag()!=0 ? "?" : ""); }
template<class... A> std::string all(A const&... a){ std::string r; ((r += (r.empty()?"":" ")+d(a)),...); return r; }
static std::string fields(SteppingConfig const& c){ return all(c.max_step_size,c.step_size_success_factor,c.step_size_fail_factor,c.consecutive_successful_steps_before_stepsize_increase,c.max_num_steps,"|",c.initial_step_size,c.min_step_size,c.min_num_steps,c.frequency_of_CN_estimation); }
static std::string fields(NewtonConfig const& c){ return all(c.max_num_newton_iterations,"|",c.min_num_newton_iterations); }
static std::string fields(AdaptiveMultiplePrecisionConfig const& c){ return all(c.coefficient_bound,c.degree_bound,c.epsilon,c.Phi,c.Psi,c.safety_digits_1,c.safety_digits_2,c.maximum_precision,c.consecutive_successful_steps_before_precision_decrease,c.max_num_precision_decreases); }
static std::string fields(PrecisionType c){ return c==PrecisionType::Fixed ? "0" : c==PrecisionType::Adaptive ? "1" : "?"; }
static std::string fields(Predictor c){ switch(c){ case Predictor::Constant: return "-1"; case Predictor::Euler: return "0"; case Predictor::Heun: return "1"; case Predictor::RK4: return "2"; case Predictor::RKNorsett34: return "4"; case Predictor::RKF45: return "5"; case Predictor::RKCashKarp45: return "6"; case Predictor::RKDormandPrince56: return "7"; case Predictor::RKVerner67: return "8"; default: return "?"; } }
static std::string fields(SecurityConfig const& c){ return all(c.level,c.max_norm); }
static std::string fields(EndgameConfig const& c){ return all(c.sample_factor,c.num_sample_points,c.min_track_time,"|",c.max_num_newton_iterations); }
static std::string fields(PowerSeriesConfig const& c){ return all(c.max_cycle_number,"|",c.cycle_number_amplification); }
static std::string fields(CauchyConfig const& c){ return all(c.cycle_cutoff_time,c.ratio_cutoff_time,"|",c.minimum_for_c_over_k_stabilization,c.num_needed_for_stabilization,c.maximum_cauchy_ratio,c.fail_safe_maximum_cycle_number); }
static std::string fields(TrackBackConfig const& c){ return all(c.minimum_cycle,c.junk_removal_test,c.max_depth_LDT); }
static std::string fields(TolerancesConfig const& c){ return all(c.newton_before_endgame,c.newton_during_endgame,c.final_tolerance,c.path_truncation_threshold); }
template<class N> std::string fields(ZeroDimConfig<N> const& c){ return all(c.initial_ambient_precision,c.path_variable_name,c.max_num_crossed_path_resolve_attempts,c.start_time,c.endgame_boundary,c.target_time); }
static std::string fields(MidPathConfig const& c){ return all(c.same_point_tolerance); }
static std::string fields(AutoRetrackConfig const& c){ return all(c.midpath_decrease_tolerance_factor); }
static std::string fields(SharpeningConfig const& c){ return all(c.sharpendigits,c.function_residual_tolerance,c.ratio_tolerance); }
static std::string fields(RegenerationConfig const& c){ return all(c.remove_infinite_endpoints,c.newton_before_endgame,c.newton_during_endgame,c.final_tolerance,c.higher_dimension_check,c.start_level); }
static std::string fields(PostProcessingConfig const& c){ return all(c.real_threshold,c.endpoint_finite_threshold,c.same_point_tolerance); }
static std::string fields(algorithm::classic::AlgoChoice c){ return std::to_string(int(c)); }
struct Reader { std::function<std::string(std::string const&)> read; std::function<std::string()> def; };
template<class C> void reg(std::map<std::string,Reader>& m, std::string const& n)
{
	m[n] = {[](std::string const& s){ C c = parsing::classic::ConfigParser<C>::Parse(s); return fields(c); }, []{ return fields(C()); }};
}
static std::map<std::string,Reader> const& readers()
{
	static std::map<std::string,Reader> m;
	if (m.empty()) {
		reg<SteppingConfig>(m,"Stepping"); reg<NewtonConfig>(m,"Newton"); reg<AdaptiveMultiplePrecisionConfig>(m,"AMP"); reg<PrecisionType>(m,"Precision"); reg<Predictor>(m,"Predictor");
		reg<SecurityConfig>(m,"Security"); reg<EndgameConfig>(m,"Endgame"); reg<PowerSeriesConfig>(m,"PowerSeries"); reg<CauchyConfig>(m,"Cauchy"); reg<TrackBackConfig>(m,"TrackBack");
		reg<TolerancesConfig>(m,"Tolerances"); reg<ZeroDimConfig<dbl>>(m,"ZeroDim"); reg<ZeroDimConfig<mpfr_complex>>(m,"ZeroDimMP"); reg<MidPathConfig>(m,"MidPath"); reg<AutoRetrackConfig>(m,"AutoRetrack");
		reg<SharpeningConfig>(m,"Sharpening"); reg<RegenerationConfig>(m,"Regeneration"); reg<PostProcessingConfig>(m,"PostProcessing"); reg<algorithm::classic::AlgoChoice>(m,"TrackType"); }
	return m;
}
static std::string text(std::string const& form, std::string const& s)
{
	if (form=="config") return s;
	if (form=="file") { auto f = parsing::classic::ParseInputFile(s); if (!f.Readable()) throw std::logic_error("harness: not readable"); return f.Config(); }
	char name[] = "/tmp/b2setXXXXXX"; int fd = mkstemp(name); if (fd<0) throw std::logic_error("harness: no scratch file");
	{ std::ofstream f(name); f << s; } close(fd);
	std::string config, input; parsing::classic::SplitIntoConfigAndInput(config, input, bertini::Path(name)); std::remove(name);
	return config;
}
void set_handlers(std::map<std::string,Handler>& h)
{
	// setall FORM TEXT : every structure read from the text, in order of the table
	h["setall"] = [](Toks const& t){ Hush q; std::string s = text(t.at(1),un(t.at(2))), r;
		for (auto const& p : readers()) { std::string v; try { v = "ok "+p.second.read(s); } catch (std::exception const& e) { v = "ex"; } r += (r.empty()?"":";")+p.first+" "+v; }
		return r; };
	// two at once
	h["setpair"] = [](Toks const& t){ Hush q; std::string s = text(t.at(1),un(t.at(2)));
		auto p = parsing::classic::ConfigParser<TolerancesConfig,SteppingConfig,SecurityConfig>::Parse(s);
		auto l = parsing::classic::ConfigParser<detail::TypeList<NewtonConfig,EndgameConfig>>::Parse(s);
		return "Tolerances ok "+fields(std::get<0>(p))+";Stepping ok "+fields(std::get<1>(p))+";Security ok "+fields(std::get<2>(p))+";Newton ok "+fields(std::get<0>(l))+";Endgame ok "+fields(std::get<1>(l)); };
	h["setdef"] = [](Toks const& t){ std::string r; for (auto const& p : readers()) r += (r.empty()?"":";")+p.first+" ok "+p.second.def(); return r; };
}
}
