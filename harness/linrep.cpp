// patches and linear slices
#include "tree.hpp"
#include "bertini2/system/patch.hpp"
#include "bertini2/system/slice.hpp"
#include <Eigen/Dense>
namespace rep {
using bertini::Patch; using bertini::LinearSlice;
static std::map<std::string,std::shared_ptr<Patch>> PT;
static std::map<std::string,std::shared_ptr<LinearSlice>> SL;
static std::vector<Var> VS;
static Patch& pt(std::string const& k){ auto i = PT.find(k); if (i==PT.end()) throw std::logic_error("harness: no patch"); return *i->second; }
static LinearSlice& sl(std::string const& k){ auto i = SL.find(k); if (i==SL.end()) throw std::logic_error("harness: no slice"); return *i->second; }
template<typename M> static std::string precs(M const& m){ if (m.size()==0) return "0"; unsigned lo = ~0u, hi = 0; for (int i=0;i<m.rows();++i) for (int j=0;j<m.cols();++j) { auto p = bertini::Precision(m(i,j)); lo = std::min<unsigned>(lo,p); hi = std::max<unsigned>(hi,p); } return lo==hi ? std::to_string(lo) : std::to_string(lo)+"-"+std::to_string(hi); }
template<typename T> static std::string vec(Vec<T> const& v){ return precs(v)+" | "+showv(v); }
template<typename T> static std::string mat(Mat<T> const& v){ return precs(v)+" | "+showm(v); }
template<typename T> static std::string pop(Patch& p, Toks const& t, std::string const& w)
{
	unsigned prec = p.Precision();
	Vec<T> x = point<T>(t,3,t.size()-3,prec);
	if (w=="peval") return vec<T>(p.Eval(x));
	if (w=="pevalip") { Vec<T> f(p.NumVariableGroups()+2); for (int i=0;i<f.size();++i) f(i) = conv<T>::from(crat("7/2"),prec); p.EvalInPlace(f,x); return vec<T>(f); }
	if (w=="pjac") return mat<T>(p.Jacobian(x));
	if (w=="pjacip") { Mat<T> J(p.NumVariableGroups()+1,p.NumVariables()); for (int i=0;i<J.rows();++i) for (int j=0;j<J.cols();++j) J(i,j) = conv<T>::from(crat("7/2"),prec); p.JacobianInPlace(J,x); return mat<T>(J); }
	if (w=="presc") { Vec<T> y = p.RescalePoint(x); return vec<T>(y)+" | "+showv(p.Eval(y))+" | "+showv(x); }
	throw std::logic_error("harness: pop");
}
template<typename T> static std::string sop(LinearSlice& s, Toks const& t, std::string const& w)
{
	unsigned prec = s.Precision();
	if (w=="sljac") { Mat<T> x; return mat<T>(s.Jacobian(x)); }
	if (w=="sljacip") { Mat<T> x, J; s.Jacobian(J,x); return mat<T>(J); }
	Vec<T> x = point<T>(t,3,t.size()-3,prec);
	if (w=="sleval") return vec<T>(s.Eval(x));
	if (w=="slevalip") { Vec<T> r; s.Eval(r,x); return vec<T>(r); }
	throw std::logic_error("harness: sop");
}
static void lin_handlers(std::map<std::string,Handler>& h)
{
	h["reset"] = [](Toks const&){ PT.clear(); SL.clear(); bertini::DefaultPrecision(30); return std::string(); };
	h["prec"] = [](Toks const& t){ bertini::DefaultPrecision(std::stoi(t.at(1))); return std::string(); };
	h["pmake"] = [](Toks const& t){ std::vector<unsigned> z; for (size_t i=3;i<t.size();++i) z.push_back(std::stoi(t[i]));
		PT[t.at(1)] = std::make_shared<Patch>(t.at(2)=="real" ? Patch::RandomReal(z) : Patch::Random(z)); return std::string(); };
	h["pcopy"] = [](Toks const& t){ PT[t.at(1)] = std::make_shared<Patch>(pt(t.at(2))); return std::string(); };
	h["passign"] = [](Toks const& t){ auto p = std::make_shared<Patch>(); *p = pt(t.at(2)); PT[t.at(1)] = p; return std::string(); };
	h["pser"] = [](Toks const& t){ auto s = serialize(pt(t.at(2))); auto p = std::make_shared<Patch>(); deserialize(*p,s); PT[t.at(1)] = p; return std::string(); };
	h["pprec"] = [](Toks const& t){ pt(t.at(1)).Precision(std::stoi(t.at(2))); return std::string(); };
	h["pgetprec"] = [](Toks const& t){ return std::to_string(pt(t.at(1)).Precision()); };
	h["pdims"] = [](Toks const& t){ return std::to_string(pt(t.at(1)).NumVariableGroups())+" "+std::to_string(pt(t.at(1)).NumVariables()); };
	h["peq"] = [](Toks const& t){ auto e = pt(t.at(1))==pt(t.at(2)), n = pt(t.at(1))!=pt(t.at(2)); return std::to_string(e)+" "+std::to_string(n); };
	// the coefficients, from a separate object at high precision
	h["pref"] = [](Toks const& t){ Patch p(pt(t.at(1))); p.Precision(20); p.Precision(150); Vec<mpfr_complex> x(p.NumVariables()); for (int i=0;i<x.size();++i) x(i) = conv<mpfr_complex>::from(crat("0"),150); return showm(p.Jacobian(x)); };
	for (auto w: {"peval","pevalip","pjac","pjacip","presc"}) h[w] = [w](Toks const& t){ return t.at(2)=="dbl" ? pop<dbl>(pt(t.at(1)),t,w) : pop<mpfr_complex>(pt(t.at(1)),t,w); };

	h["slmake"] = [](Toks const& t){ // slmake S real|complex hom orth dim n
		while (VS.size()<8) VS.push_back(bn::Variable::Make("v"+std::to_string(VS.size())));
		bertini::VariableGroup g(VS.begin(),VS.begin()+std::stoi(t.at(6))); unsigned d = std::stoi(t.at(5)); bool hom = t.at(3)=="1", orth = t.at(4)=="1";
		SL[t.at(1)] = std::make_shared<LinearSlice>(t.at(2)=="real" ? LinearSlice::RandomReal(g,d,hom,orth) : LinearSlice::RandomComplex(g,d,hom,orth)); return std::string(); };
	h["slcopy"] = [](Toks const& t){ SL[t.at(1)] = std::make_shared<LinearSlice>(sl(t.at(2))); return std::string(); };
	h["slassign"] = [](Toks const& t){ auto p = std::make_shared<LinearSlice>(); *p = sl(t.at(2)); SL[t.at(1)] = p; return std::string(); };
	h["slser"] = [](Toks const& t){ auto s = serialize(sl(t.at(2))); auto p = std::make_shared<LinearSlice>(); deserialize(*p,s); SL[t.at(1)] = p; return std::string(); };
	h["slprec"] = [](Toks const& t){ sl(t.at(1)).Precision(std::stoi(t.at(2))); return std::string(); };
	h["slgetprec"] = [](Toks const& t){ return std::to_string(sl(t.at(1)).Precision()); };
	h["sldims"] = [](Toks const& t){ return std::to_string(sl(t.at(1)).Dimension())+" "+std::to_string(sl(t.at(1)).NumVariables()); };
	h["slref"] = [](Toks const& t){ LinearSlice s(sl(t.at(1))); s.Precision(20); s.Precision(150); Mat<mpfr_complex> x; Vec<mpfr_complex> z(s.NumVariables()); for (int i=0;i<z.size();++i) z(i) = conv<mpfr_complex>::from(crat("0"),150); return showm(s.Jacobian(x))+" | "+showv(s.Eval(z)); };
	for (auto w: {"sleval","slevalip","sljac","sljacip"}) h[w] = [w](Toks const& t){ return t.at(2)=="dbl" ? sop<dbl>(sl(t.at(1)),t,w) : sop<mpfr_complex>(sl(t.at(1)),t,w); };
}
}
int main(){ std::map<std::string,rep::Handler> h; rep::lin_handlers(h); return rep::run(h); }
