#include "endgame.hpp"
namespace rep {
std::map<std::string,std::shared_ptr<AnyEndgame>>& endgames(){ static std::map<std::string,std::shared_ptr<AnyEndgame>> m; return m; }

// hermite type prec target n front|back dim times... samples... derivatives...
template<typename C> static std::string hermite(Toks const& a)
{
	unsigned p = std::stoul(a.at(2)); size_t n = std::stoul(a.at(4)), m = std::stoul(a.at(6)), d = std::stoul(a.at(7)), k = 8;   // use n of the m points
	if (!std::is_same<C,dbl>::value) bertini::DefaultPrecision(p);
	bertini::TimeCont<C> ts; bertini::SampCont<C> xs, ds;
	for (size_t i=0;i<m;++i) ts.push_back(conv<C>::from(crat(a.at(k++)),p));
	for (size_t i=0;i<m;++i,k+=d) xs.push_back(point<C>(a,k,d,p));
	for (size_t i=0;i<m;++i,k+=d) ds.push_back(point<C>(a,k,d,p));
	return showv(be::HermiteInterpolateAndSolve<C>(conv<C>::from(crat(a.at(3)),p),n,ts,xs,ds,a.at(5)=="front"?bertini::ContStart::Front:bertini::ContStart::Back));
}
void endgame_handlers(std::map<std::string,Handler>& h)
{
	auto old = h["reset"];
	h["reset"] = [old](Toks const& t){ endgames().clear(); return old(t); };
	h["emake"] = [](Toks const& t){ auto& tr = *trackers().at(t.at(3)); endgames()[t.at(1)] = t.at(2)=="ps" ? make_ps(tr) : make_cauchy(tr); return std::string(); };
	for (std::string o : {"eset","egtr","erun","erunp","etrun","estate","erec","edump","eapprox"})
		h[o] = [](Toks const& t){ return endgames().at(t.at(1))->cmd(t); };
	h["hermite"] = [](Toks const& t){ return t.at(1)=="dbl" ? hermite<dbl>(t) : hermite<mpfr_complex>(t); };
}
}
