// Shared pieces of the replay harnesses: a line-oriented interpreter that performs the
// operations a specification behaviour names on the real Bertini 2 objects and prints what it
// observes.  It decides nothing: the driver compares the output with the specification.
#pragma once
#include <iostream>
#include <sstream>
#include <fstream>
#include <map>
#include <functional>
#include <vector>
#include <string>
#include <typeinfo>
#include "bertini2/mpfr_complex.hpp"
#include "bertini2/mpfr_extensions.hpp"
#include "bertini2/eigen_extensions.hpp"

namespace rep {
using bertini::dbl;
using bertini::mpfr_complex;
using bertini::mpfr_float;
using bertini::mpq_rational;
template<typename T> using Vec = bertini::Vec<T>;
template<typename T> using Mat = bertini::Mat<T>;
using Toks = std::vector<std::string>;

inline Toks split(std::string const& s){ std::istringstream is(s); Toks t; std::string w; while (is>>w) t.push_back(w); return t; }

// an exact complex rational, written re or re,im, each a or a/b
struct CRat { mpq_rational re, im; };
inline CRat crat(std::string const& s)
{
	auto c = s.find(',');
	CRat r;
	r.re = mpq_rational(s.substr(0,c));
	r.im = c==std::string::npos ? mpq_rational(0) : mpq_rational(s.substr(c+1));
	return r;
}
template<typename T> struct conv;
template<> struct conv<dbl>{
	static dbl from(CRat const& q, unsigned){ return dbl(q.re.convert_to<double>(), q.im.convert_to<double>()); }
};
template<> struct conv<mpfr_complex>{
	static mpfr_complex from(CRat const& q, unsigned prec){
		auto old = mpfr_float::default_precision();
		bertini::DefaultPrecision(prec);
		mpfr_float re(q.re), im(q.im);
		re.precision(prec); im.precision(prec);
		// recompute at the requested precision, whatever the conversion did
		re = mpfr_float(boost::multiprecision::numerator(q.re)); re.precision(prec);
		re /= mpfr_float(boost::multiprecision::denominator(q.re));
		im = mpfr_float(boost::multiprecision::numerator(q.im)); im.precision(prec);
		im /= mpfr_float(boost::multiprecision::denominator(q.im));
		mpfr_complex z(re,im);
		z.precision(prec);
		bertini::DefaultPrecision(old);
		return z;
	}
};
inline std::string show(double x){ std::ostringstream o; o.precision(17); o<<x; return o.str(); }
inline std::string show(mpfr_float const& x){ return x.str(x.precision()+4, std::ios::scientific); }
inline std::string show(dbl const& z){ return show(z.real())+","+show(z.imag()); }
inline std::string show(mpfr_complex const& z){ mpfr_float r = z.real(), i = z.imag(); return show(r)+","+show(i); }
template<typename T> std::string showv(T const& v){ std::string s; for (int i=0;i<v.size();++i) s += (i?" ":"")+show(v(i)); return s; }
template<typename M> std::string showm(M const& m){ std::string s; for (int i=0;i<m.rows();++i) for(int j=0;j<m.cols();++j) s += ((i||j)?" ":"")+show(m(i,j)); return s; }

inline std::string oneline(std::string s){ for (auto& c: s) if (c=='\n'||c=='\r') c=' '; return s; }

using Handler = std::function<std::string(Toks const&)>;

inline int run(std::map<std::string,Handler>& h)
{
	std::ios::sync_with_stdio(false);
	std::string line;
	while (std::getline(std::cin,line))
	{
		Toks t = split(line);
		if (t.empty()) continue;
		auto it = h.find(t[0]);
		std::string out;
		if (it==h.end()) out = "bad unknown command "+t[0];
		else {
			try { out = it->second(t); out = out.empty() ? "ok" : "ok "+out; }
			catch (std::exception const& e){ out = std::string("ex ")+oneline(e.what()); }
			catch (...) { out = "ex unknown"; }
		}
		std::cout << out << "\n" << std::flush;
	}
	return 0;
}
}
