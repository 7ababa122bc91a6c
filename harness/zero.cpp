#include "zero.hpp"
namespace rep {
void zero_dbl_ps(); void zero_dbl_cauchy(); void zero_mp_ps(); void zero_mp_cauchy(); void zero_amp_ps(); void zero_amp_cauchy();
std::map<std::string,MakeZero>& zero_makers(){ static std::map<std::string,MakeZero> m; return m; }
static std::map<std::string,std::shared_ptr<AnyZero>>& zeros(){ static std::map<std::string,std::shared_ptr<AnyZero>> m; return m; }
static std::map<std::string,std::shared_ptr<ss::User>>& users(){ static std::map<std::string,std::shared_ptr<ss::User>> m; return m; }

// the check for path crossings by itself: points and start points are given
struct Given { std::vector<Vec<dbl>> pts; template<typename C> Vec<dbl> StartPoint(unsigned long long i) const { return pts.at(i); } };
using Mid = ba::MidpathChecker<double,dbl,ba::EGBoundaryMetaData<dbl>>;
static std::map<std::string,std::shared_ptr<Mid>>& mids(){ static std::map<std::string,std::shared_ptr<Mid>> m; return m; }

void zero_handlers(std::map<std::string,Handler>& h)
{
	zero_dbl_ps(); zero_dbl_cauchy(); zero_mp_ps(); zero_mp_cauchy(); zero_amp_ps(); zero_amp_cauchy();
	auto old = h["reset"];
	h["reset"] = [old](Toks const& t){ zeros().clear(); users().clear(); mids().clear(); return old(t); };
	h["zmake"] = [](Toks const& t){ // id kind endgame start system
		zeros()[t.at(1)] = zero_makers().at(t.at(2)+" "+t.at(3)+" "+t.at(4))(W().s(t.at(5)),nullptr,nullptr); return std::string(); };
	h["zuser"] = [](Toks const& t){ // id kind endgame target homotopy prec npts coords...
		auto& s = W().s(t.at(4)); size_t n = s.NumVariables(), m = std::stoul(t.at(7)); unsigned p = std::stoul(t.at(6));
		if (t.at(2)=="dbl") { bertini::SampCont<dbl> c; for (size_t i=0;i<m;++i) c.push_back(point<dbl>(t,8+i*n,n,16)); users()[t.at(1)] = std::make_shared<ss::User>(s,c); }
		else { bertini::SampCont<mpfr_complex> c; for (size_t i=0;i<m;++i) c.push_back(point<mpfr_complex>(t,8+i*n,n,p)); users()[t.at(1)] = std::make_shared<ss::User>(s,c); }
		zeros()[t.at(1)] = zero_makers().at(t.at(2)+" "+t.at(3)+" user")(s,&W().s(t.at(5)),users()[t.at(1)].get()); return std::string(); };
	for (std::string o : {"zset","zsetup","zrec","zdump","zsolve","zpaths","zinfo"})
		h[o] = [](Toks const& t){ return zeros().at(t.at(1))->cmd(t); };
	h["mmake"] = [](Toks const& t){ ba::MidPathConfig c; c.same_point_tolerance = dnum(t.at(2)); mids()[t.at(1)] = std::make_shared<Mid>(c); return std::string(); };
	h["mset"] = [](Toks const& t){ ba::MidPathConfig c; c.same_point_tolerance = dnum(t.at(2)); mids().at(t.at(1))->Set(c); return std::string(); };
	h["mcheck"] = [](Toks const& t){ // id paths dim (ok point start)...
		auto& m = *mids().at(t.at(1)); size_t n = std::stoul(t.at(2)), d = std::stoul(t.at(3)), k = 4;
		Mid::BoundaryData b; Given g;
		for (size_t i=0;i<n;++i) { bool ok = t.at(k++)=="1"; auto x = point<dbl>(t,k,d,16); k += d; g.pts.push_back(point<dbl>(t,k,d,16)); k += d;
			b.push_back(ba::EGBoundaryMetaData<dbl>(x, ok?bertini::SuccessCode::Success:bertini::SuccessCode::MinStepSizeReached, 0.1)); }
		bool r = m.Check(b,g);
		std::string s = std::to_string(r)+" "+std::to_string(m.Passed());
		for (auto const& c : m.GetCrossedPaths()) s += " "+std::to_string(c.index())+":"+std::to_string(c.rerun());
		return s; };
}
}
