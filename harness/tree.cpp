#include "tree.hpp"
#include "bertini2/function_tree/simplify.hpp"
namespace rep {
template<typename T> static std::string jevalT(Nd n, Var v){ auto j = std::dynamic_pointer_cast<bn::Jacobian>(n); T r; j->template EvalJInPlace<T>(r,v); return show(r); }

void tree_handlers(std::map<std::string,Handler>& h)
{
	h["reset"] = [](Toks const&){ W().clear(); return std::string(); };
	h["prec"] = [](Toks const& t){ bertini::DefaultPrecision(std::stoul(t.at(1))); return std::string(); };
	h["var"] = [](Toks const& t){ auto v = bn::Variable::Make(t.at(2)); W().vars[t.at(1)] = v; W().nodes[t.at(1)] = v; return std::string(); };
	h["node"] = [](Toks const& t){ W().nodes[t.at(1)] = make_node(t,2); return std::string(); };
	h["nset"] = [](Toks const& t){ // nset dbl|mp var val prec
		if (t.at(1)=="dbl") W().v(t.at(2))->set_current_value(conv<dbl>::from(crat(t.at(3)),0));
		else { auto p = std::stoul(t.at(4)); W().v(t.at(2))->set_current_value(conv<mpfr_complex>::from(crat(t.at(3)),p)); }
		return std::string(); };
	h["nreset"] = [](Toks const& t){ W().n(t.at(1))->Reset(); return std::string(); };
	h["nprec"] = [](Toks const& t){ W().n(t.at(1))->precision(std::stoul(t.at(2))); return std::string(); };
	h["nprecget"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->precision()); };
	h["neval"] = [](Toks const& t){
		if (t.at(1)=="dbl") return show(W().n(t.at(2))->Eval<dbl>());
		return show(W().n(t.at(2))->Eval<mpfr_complex>()); };
	h["njac"] = [](Toks const& t){ // make a Jacobian node:  njac id node
		W().nodes[t.at(1)] = bn::Jacobian::Make(W().n(t.at(2))->Differentiate()); return std::string(); };
	h["njeval"] = [](Toks const& t){ // njeval dbl|mp jac var
		if (t.at(1)=="dbl") return jevalT<dbl>(W().n(t.at(2)),W().v(t.at(3)));
		return jevalT<mpfr_complex>(W().n(t.at(2)),W().v(t.at(3))); };
	h["ndeg"] = [](Toks const& t){ return std::to_string(t.size()>2 ? W().n(t.at(1))->Degree(W().v(t.at(2))) : W().n(t.at(1))->Degree()); };
	h["ndegg"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->Degree(group(t,2))); };
	h["nmdeg"] = [](Toks const& t){ std::string s; for (auto d: W().n(t.at(1))->MultiDegree(group(t,2))) s += (s.empty()?"":" ")+std::to_string(d); return s; };
	h["npoly"] = [](Toks const& t){ auto n=W().n(t.at(1)); return std::to_string(t.size()==2 ? n->IsPolynomial() : t.size()==3 ? n->IsPolynomial(W().v(t[2])) : n->IsPolynomial(group(t,2))); };
	h["npolyg"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->IsPolynomial(group(t,2))); };
	h["nhomq"] = [](Toks const& t){ return std::to_string(t.size()>2 ? W().n(t.at(1))->IsHomogeneous(W().v(t.at(2))) : W().n(t.at(1))->IsHomogeneous()); };
	h["nhomqg"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->IsHomogeneous(group(t,2))); };
	h["nhomog"] = [](Toks const& t){ auto hv=W().v(t.at(2)); auto g=group(t,3); W().n(t.at(1))->Homogenize(g,hv); return std::string(); };
	h["nsimp"] = [](Toks const& t){ bertini::Simplify(W().n(t.at(1))); return std::string(); };
	h["nredepth"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->ReduceDepth()); };
	h["nel1"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->EliminateOnes()); };
	h["nel0"] = [](Toks const& t){ return std::to_string(W().n(t.at(1))->EliminateZeros()); };
	h["nprint"] = [](Toks const& t){ std::stringstream ss; ss << *W().n(t.at(1)); return oneline(ss.str()); };
	h["nser"] = [](Toks const& t){ // nser newprefix node  -> reloaded node, and its variables as <prefix><var>
		auto s = serialize(W().n(t.at(2))); Nd n; deserialize(n,s); W().nodes[t.at(1)] = n; return std::string(); };
	h["nserv"] = [](Toks const& t){ // nserv prefix node v1 v2 .. : round trip the node together with the variables
		Nd n = W().n(t.at(2)); auto g = group(t,3);
		std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << n; for (auto& v: g) oa << v; }
		Nd m; bertini::VariableGroup gg(g.size());
		{ boost::archive::text_iarchive ia(ss); ia >> m; for (auto& v: gg) ia >> v; }
		W().nodes[t.at(1)+"n"] = m;
		for (size_t i=0;i<gg.size();++i){ W().vars[t.at(1)+t.at(3+i)] = gg[i]; W().nodes[t.at(1)+t.at(3+i)] = gg[i]; }
		return std::string(); };
	h["nroot"] = [](Toks const& t){ std::dynamic_pointer_cast<bn::Handle>(W().n(t.at(1)))->SetRoot(W().n(t.at(2))); return std::string(); };
}
}
