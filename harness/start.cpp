#include "tree.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/system/slice.hpp"
namespace rep {
using bertini::System;
namespace ss = bertini::start_system;
static std::map<std::string,std::shared_ptr<ss::StartSystem>>& ST(){ static std::map<std::string,std::shared_ptr<ss::StartSystem>> m; return m; }
static ss::StartSystem& st(std::string const& k){ auto i = ST().find(k); if (i==ST().end()) throw std::logic_error("harness: not a start system"); return *i->second; }
static std::string reg(std::string const& k, std::shared_ptr<ss::StartSystem> p){ ST()[k] = p; W().sys[k] = p; return ""; }
template<typename T> static T det(Mat<T> m){ return m.determinant(); }

// the i-th start point: coordinates | dehomogenized coordinates | function values there (patch included) | det of Jacobian
template<typename T> static std::string startT(std::string const& k, unsigned long long i)
{
	auto& s = st(k);
	Vec<T> x = s.template StartPoint<T>(i);
	if (x.size()!=s.NumVariables()) return "size "+std::to_string(x.size());
	System& sy = s;
	Vec<T> f = sy.Eval(x); Mat<T> J = sy.Jacobian(x);
	Vec<T> d = sy.DehomogenizePoint(x);
	return std::to_string(bertini::Precision(x(0)))+" | "+showv(x)+" | "+showv(d)+" | "+showv(f)+" | "+(J.rows()==J.cols() ? show(det<T>(J)) : std::string("nonsquare"));
}
// value of system h at the i-th start point of s and time tm
template<typename T> static std::string homT(System& hom, std::string const& k, unsigned long long i, std::string const& tm)
{
	auto& s = st(k);
	Vec<T> x = s.template StartPoint<T>(i);
	T t = conv<T>::from(crat(tm), hom.precision());
	return showv(hom.Eval(x,t));
}

static std::map<std::string,bertini::LinearSlice>& SL(){ static std::map<std::string,bertini::LinearSlice> m; return m; }

void start_handlers(std::map<std::string,Handler>& h)
{
	h["stot"] = [](Toks const& t){ return reg(t.at(1), std::make_shared<ss::TotalDegree>(W().s(t.at(2)))); };
	h["smhom"] = [](Toks const& t){ return reg(t.at(1), std::make_shared<ss::MHomogeneous>(W().s(t.at(2)))); };
	h["suser"] = [](Toks const& t){ // suser d s dbl|mp npts coords...
		auto& s = W().s(t.at(2)); size_t n = s.NumVariables(), m = std::stoul(t.at(4));
		if (t.at(3)=="dbl") { bertini::SampCont<dbl> c; for (size_t i=0;i<m;++i) c.push_back(point<dbl>(t,5+i*n,n,16)); reg(t.at(1), std::make_shared<ss::User>(s,c)); }
		else { bertini::SampCont<mpfr_complex> c; for (size_t i=0;i<m;++i) c.push_back(point<mpfr_complex>(t,5+i*n,n,bertini::DefaultPrecision())); reg(t.at(1), std::make_shared<ss::User>(s,c)); }
		return std::string(); };
	h["snum"] = [](Toks const& t){ return std::to_string(st(t.at(1)).NumStartPoints()); };
	h["sstart"] = [](Toks const& t){ auto i = std::stoull(t.at(3)); return t.at(2)=="dbl" ? startT<dbl>(t.at(1),i) : startT<mpfr_complex>(t.at(1),i); };
	h["sstartpt"] = [](Toks const& t){ auto i = std::stoull(t.at(3)); auto& s = st(t.at(1)); return t.at(2)=="dbl" ? showv(s.StartPoint<dbl>(i)) : showv(s.StartPoint<mpfr_complex>(i)); };
	h["shomat"] = [](Toks const& t){ auto i = std::stoull(t.at(4)); return t.at(3)=="dbl" ? homT<dbl>(W().s(t.at(1)),t.at(2),i,t.at(5)) : homT<mpfr_complex>(W().s(t.at(1)),t.at(2),i,t.at(5)); };
	h["std_copy"] = [](Toks const& t){ // copy keeping the dynamic type
		if (auto p = std::dynamic_pointer_cast<ss::TotalDegree>(ST().at(t.at(2)))) reg(t.at(1), std::make_shared<ss::TotalDegree>(*p));
		else if (auto q = std::dynamic_pointer_cast<ss::MHomogeneous>(ST().at(t.at(2)))) reg(t.at(1), std::make_shared<ss::MHomogeneous>(*q));
		else throw std::logic_error("harness: std_copy");
		return std::string(); };
	h["std_ser"] = [](Toks const& t){
		if (auto p = std::dynamic_pointer_cast<ss::TotalDegree>(ST().at(t.at(2)))) { auto s = serialize(*p); auto q = std::make_shared<ss::TotalDegree>(); deserialize(*q,s); reg(t.at(1),q); }
		else throw std::logic_error("harness: std_ser");
		return std::string(); };
	h["smuleqtd"] = [](Toks const& t){ auto p = std::dynamic_pointer_cast<ss::TotalDegree>(ST().at(t.at(1))); *p *= W().n(t.at(2)); return std::string(); };
}
}
