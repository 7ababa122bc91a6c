// node / system registry shared by the replay harnesses
#pragma once
#include "rep.hpp"
#include "bertini2/function_tree.hpp"
#include "bertini2/system/system.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>

namespace rep {
namespace bn = bertini::node;
using Nd = std::shared_ptr<bn::Node>;
using Var = std::shared_ptr<bn::Variable>;
using Fn = std::shared_ptr<bn::Function>;

struct World {
	std::map<std::string,Nd> nodes;
	std::map<std::string,Var> vars;
	std::map<std::string,Fn> fns;
	std::map<std::string,std::shared_ptr<bertini::System>> sys;
	void clear(){ sys.clear(); fns.clear(); nodes.clear(); vars.clear(); }
	Nd n(std::string const& s){ auto i=nodes.find(s); if (i==nodes.end()) throw std::logic_error("harness: no node "+s); return i->second; }
	Var v(std::string const& s){ auto i=vars.find(s); if (i==vars.end()) throw std::logic_error("harness: no var "+s); return i->second; }
	bertini::System& s(std::string const& k){ auto i=sys.find(k); if (i==sys.end()) throw std::logic_error("harness: no system "+k); return *i->second; }
};
inline World& W(){ static World w; return w; }

inline Nd make_node(Toks const& t, size_t k)
{
	auto& w = W();
	std::string const& op = t[k];
	auto a = [&](int i){ return w.n(t.at(k+i)); };
	if (op=="int") return bn::Integer::Make(std::stoi(t.at(k+1)));
	if (op=="intz") return bn::Integer::Make(bertini::mpz_int(t.at(k+1)));
	if (op=="ints") return bn::Integer::Make(t.at(k+1));
	if (op=="rat") { auto q = crat(t.at(k+1)); return bn::Rational::Make(q.re,q.im); }
	if (op=="rats") { std::string re=t.at(k+1), im=t.at(k+2); return bn::Rational::Make(re,im); }
	if (op=="ratn") { int x[4]; for(int i=0;i<4;++i) x[i]=std::stoi(t.at(k+1+i)); return bn::Rational::Make(x[0],x[1],x[2],x[3]); }
	if (op=="flt") { std::string re=t.at(k+1), im=t.at(k+2); return bn::Float::Make(re,im); }
	if (op=="fltr") { std::string re=t.at(k+1); return bn::Float::Make(re); }
	if (op=="fltv") { auto q=crat(t.at(k+1)); return bn::Float::Make(conv<mpfr_complex>::from(q,std::stoi(t.at(k+2)))); }
	if (op=="pi") return bn::Pi();
	if (op=="e") return bn::E();
	if (op=="i") return bn::I();
	if (op=="one") return bn::One();
	if (op=="two") return bn::Two();
	if (op=="zero") return bn::Zero();
	if (op=="neg") return -a(1);
	if (op=="add") return a(1)+a(2);
	if (op=="sub") return a(1)-a(2);
	if (op=="mul") return a(1)*a(2);
	if (op=="div") return a(1)/a(2);
	if (op=="addi") return a(1)+std::stoi(t.at(k+2));
	if (op=="iadd") return std::stoi(t.at(k+2))+a(1);
	if (op=="subi") return a(1)-std::stoi(t.at(k+2));
	if (op=="isub") return std::stoi(t.at(k+2))-a(1);
	if (op=="muli") return a(1)*std::stoi(t.at(k+2));
	if (op=="imul") return std::stoi(t.at(k+2))*a(1);
	if (op=="divi") return a(1)/std::stoi(t.at(k+2));
	if (op=="idiv") return std::stoi(t.at(k+2))/a(1);
	if (op=="addq") return a(1)+crat(t.at(k+2)).re;
	if (op=="qadd") return crat(t.at(k+2)).re+a(1);
	if (op=="subq") return a(1)-crat(t.at(k+2)).re;
	if (op=="qsub") return crat(t.at(k+2)).re-a(1);
	if (op=="mulq") return a(1)*crat(t.at(k+2)).re;
	if (op=="qmul") return crat(t.at(k+2)).re*a(1);
	if (op=="divq") return a(1)/crat(t.at(k+2)).re;
	if (op=="qdiv") return crat(t.at(k+2)).re/a(1);
	if (op=="addeq") { Nd x=a(1); x+=a(2); return x; }
	if (op=="subeq") { Nd x=a(1); x-=a(2); return x; }
	if (op=="muleq") { Nd x=a(1); x*=a(2); return x; }
	if (op=="diveq") { Nd x=a(1); x/=a(2); return x; }
	if (op=="pow") return pow(a(1),a(2));
	if (op=="ipow") return pow(a(1),std::stoi(t.at(k+2)));
	if (op=="qpow") return pow(a(1),crat(t.at(k+2)).re);
	if (op=="sqrt") return sqrt(a(1));
	if (op=="exp") return exp(a(1));
	if (op=="log") return log(a(1));
	if (op=="sin") return sin(a(1));
	if (op=="cos") return cos(a(1));
	if (op=="tan") return tan(a(1));
	if (op=="asin") return asin(a(1));
	if (op=="acos") return acos(a(1));
	if (op=="atan") return atan(a(1));
	if (op=="fn") { Fn f = bn::Function::Make(a(1), t.at(k+2)); return f; }
	if (op=="sum") { // sum n1 s1 n2 s2 ...
		auto p = bn::SumOperator::Make(a(1), t.at(k+2)=="+");
		for (size_t i=k+3;i+1<t.size();i+=2) p->AddOperand(w.n(t[i]), t[i+1]=="+");
		return p;
	}
	if (op=="prod") {
		auto p = bn::MultOperator::Make(a(1), t.at(k+2)=="*", a(3), t.at(k+4)=="*");
		for (size_t i=k+5;i+1<t.size();i+=2) p->AddOperand(w.n(t[i]), t[i+1]=="*");
		return p;
	}
	if (op=="diff") return a(1)->Differentiate(w.v(t.at(k+2)));
	throw std::logic_error("harness: unknown node op "+op);
}

template<typename T> Vec<T> point(Toks const& t, size_t from, size_t n, unsigned prec)
{
	Vec<T> v(n);
	for (size_t i=0;i<n;++i) v(i) = conv<T>::from(crat(t.at(from+i)),prec);
	return v;
}
inline bertini::VariableGroup group(Toks const& t, size_t from){ bertini::VariableGroup g; for (size_t i=from;i<t.size();++i) g.push_back(W().v(t[i])); return g; }

template<typename T> std::string serialize(T const& x){ std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << x; } return ss.str(); }
template<typename T> void deserialize(T& x, std::string const& s){ std::stringstream ss(s); boost::archive::text_iarchive ia(ss); ia >> x; }

void tree_handlers(std::map<std::string,Handler>& h);
void system_handlers(std::map<std::string,Handler>& h);
void start_handlers(std::map<std::string,Handler>& h);
}
