#include "tree.hpp"
namespace rep {
using bertini::System;

template<typename T> static std::string evalT(System& s, Toks const& t, size_t k, std::string const& what)
{
	size_t n = s.NumVariables();
	unsigned p = s.precision();
	bool have = k < t.size();
	if (have && (t.size()-k) < n) { // hand over exactly what we were given: the size mismatch is the point
		n = t.size()-k;
	}
	Vec<T> x; T tm; bool havet=false;
	if (have) { x = point<T>(t,k,n,p); if (k+n<t.size()) { tm = conv<T>::from(crat(t.at(k+n)),p); havet=true; } }
	if (what=="eval") return showv(have ? (havet ? s.Eval(x,tm) : s.Eval(x)) : s.Eval<T>());
	if (what=="evalip") { Vec<T> f(s.NumTotalFunctions()); if (have) { if (havet) s.EvalInPlace(f,x,tm); else s.EvalInPlace(f,x);} else s.EvalInPlace(f); return showv(f); }
	if (what=="jac") return showm(have ? (havet ? s.Jacobian(x,tm) : s.Jacobian(x)) : s.Jacobian<T>());
	if (what=="td") return showv(have ? (havet ? s.TimeDerivative(x,tm) : s.template TimeDerivative<Vec<T>,T>(x)) : s.TimeDerivative<T>());
	if (what=="set") { if (havet) s.SetAndReset(x,tm); else s.SetAndReset(x); return ""; }
	if (what=="setv") { s.SetVariables(x); if (havet) s.SetPathVariable(tm); return ""; }
	if (what=="dehom") return showv(s.DehomogenizePoint(x));
	if (what=="rescale") return showv(s.RescalePointToFitPatch(x));
	if (what=="cbound") return "";
	throw std::logic_error("harness: evalT");
}
static std::string names(bertini::VariableGroup const& g){ std::string s; for (auto& v: g) s += (s.empty()?"":" ")+v->name(); return s; }

void system_handlers(std::map<std::string,Handler>& h)
{
	h["sys"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(); return std::string(); };
	h["sfn"] = [](Toks const& t){ auto n = W().n(t.at(2)); auto f = std::dynamic_pointer_cast<bn::Function>(n); if (f) W().s(t.at(1)).AddFunction(f); else W().s(t.at(1)).AddFunction(n); return std::string(); };
	h["ssub"] = [](Toks const& t){ W().s(t.at(1)).AddSubfunction(std::dynamic_pointer_cast<bn::Function>(W().n(t.at(2)))); return std::string(); };
	h["sconst"] = [](Toks const& t){ W().s(t.at(1)).AddConstant(std::dynamic_pointer_cast<bn::Function>(W().n(t.at(2)))); return std::string(); };
	h["sparam"] = [](Toks const& t){ W().s(t.at(1)).AddParameter(std::dynamic_pointer_cast<bn::Function>(W().n(t.at(2)))); return std::string(); };
	h["sgrp"] = [](Toks const& t){ W().s(t.at(1)).AddVariableGroup(group(t,2)); return std::string(); };
	h["shgrp"] = [](Toks const& t){ W().s(t.at(1)).AddHomVariableGroup(group(t,2)); return std::string(); };
	h["sung"] = [](Toks const& t){ W().s(t.at(1)).AddUngroupedVariable(W().v(t.at(2))); return std::string(); };
	h["sungs"] = [](Toks const& t){ W().s(t.at(1)).AddUngroupedVariables(group(t,2)); return std::string(); };
	h["spath"] = [](Toks const& t){ W().s(t.at(1)).AddPathVariable(W().v(t.at(2))); return std::string(); };
	h["sevalm"] = [](Toks const& t){ W().s(t.at(1)).SetEvalMethod(t.at(2)=="SLP" ? bertini::EvalMethod::SLP : bertini::EvalMethod::FunctionTree); return std::string(); };
	h["sderivm"] = [](Toks const& t){ W().s(t.at(1)).SetDerivMethod(t.at(2)=="J" ? bertini::DerivMethod::JacobianNode : bertini::DerivMethod::Derivatives); return std::string(); };
	h["sautosimp"] = [](Toks const& t){ W().s(t.at(1)).SetAutoSimplify(t.at(2)=="1"); return std::string(); };
	h["sdiff"] = [](Toks const& t){ W().s(t.at(1)).Differentiate(); return std::string(); };
	h["ssimp"] = [](Toks const& t){ bertini::Simplify(W().s(t.at(1))); return std::string(); };
	h["ssimpf"] = [](Toks const& t){ W().s(t.at(1)).SimplifyFunctions(); return std::string(); };
	h["shomog"] = [](Toks const& t){ W().s(t.at(1)).Homogenize(); return std::string(); };
	h["spatch"] = [](Toks const& t){ W().s(t.at(1)).AutoPatch(); return std::string(); };
	h["scpatch"] = [](Toks const& t){ W().s(t.at(1)).CopyPatches(W().s(t.at(2))); return std::string(); };
	h["sprec"] = [](Toks const& t){ W().s(t.at(1)).precision(std::stoul(t.at(2))); return std::string(); };
	h["sprecget"] = [](Toks const& t){ return std::to_string(W().s(t.at(1)).precision()); };
	h["sreset"] = [](Toks const& t){ W().s(t.at(1)).Reset(); return std::string(); };
	h["sreorder"] = [](Toks const& t){ if (t.at(2)=="dec") W().s(t.at(1)).ReorderFunctionsByDegreeDecreasing(); else W().s(t.at(1)).ReorderFunctionsByDegreeIncreasing(); return std::string(); };
	// copies:  scopy new old
	h["scopy"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(W().s(t.at(2))); return std::string(); };
	h["sassign"] = [](Toks const& t){ W().s(t.at(1)) = W().s(t.at(2)); return std::string(); };
	h["smove"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(std::move(W().s(t.at(2)))); W().sys.erase(t.at(2)); return std::string(); };
	h["smoveassign"] = [](Toks const& t){ W().s(t.at(1)) = std::move(W().s(t.at(2))); W().sys.erase(t.at(2)); return std::string(); };
	h["sswap"] = [](Toks const& t){ swap(W().s(t.at(1)), W().s(t.at(2))); return std::string(); };
	h["sclone"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(bertini::Clone(W().s(t.at(2)))); return std::string(); };
	h["sser"] = [](Toks const& t){ auto s = serialize(W().s(t.at(2))); auto p = std::make_shared<System>(); deserialize(*p,s); W().sys[t.at(1)] = p; return std::string(); };
	h["sadd"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(W().s(t.at(2))+W().s(t.at(3))); return std::string(); };
	h["smul"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(W().s(t.at(2))*W().n(t.at(3))); return std::string(); };
	h["slmul"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(W().n(t.at(3))*W().s(t.at(2))); return std::string(); };
	h["saddeq"] = [](Toks const& t){ W().s(t.at(1)) += W().s(t.at(2)); return std::string(); };
	h["smuleq"] = [](Toks const& t){ W().s(t.at(1)) *= W().n(t.at(2)); return std::string(); };
	h["sconcat"] = [](Toks const& t){ W().sys[t.at(1)] = std::make_shared<System>(bertini::Concatenate(W().s(t.at(2)),W().s(t.at(3)))); return std::string(); };
	h["scopyvars"] = [](Toks const& t){ W().s(t.at(1)).CopyVariableStructure(W().s(t.at(2))); return std::string(); };
	h["sclearvars"] = [](Toks const& t){ W().s(t.at(1)).ClearVariables(); return std::string(); };
	h["sdrop"] = [](Toks const& t){ W().sys.erase(t.at(1)); return std::string(); };
	for (std::string what : {"eval","evalip","jac","td","set","setv","dehom","rescale"})
		h["s"+what] = [what](Toks const& t){ if (t.at(2)=="dbl") return evalT<dbl>(W().s(t.at(1)),t,3,what); return evalT<mpfr_complex>(W().s(t.at(1)),t,3,what); };
	h["sdegs"] = [](Toks const& t){ std::string s; for (auto d: (t.size()>2 ? W().s(t.at(1)).Degrees(group(t,2)) : W().s(t.at(1)).Degrees())) s += (s.empty()?"":" ")+std::to_string(d); return s; };
	h["sdegso"] = [](Toks const& t){ std::string r; auto& s = W().s(t.at(1)); bertini::VariableGroup g; for (size_t i=2;i<t.size();++i) for (auto& v: s.Variables()) if (v->name()==t[i]) g.push_back(v); // the system's own variables, by name
		for (auto d: s.Degrees(g)) r += (r.empty()?"":" ")+std::to_string(d); return r; };
	h["sdegb"] = [](Toks const& t){ return std::to_string(W().s(t.at(1)).DegreeBound()); };
	h["spoly"] = [](Toks const& t){ return std::to_string(W().s(t.at(1)).IsPolynomial()); };
	h["shomq"] = [](Toks const& t){ return std::to_string(W().s(t.at(1)).IsHomogeneous()); };
	h["spatchq"] = [](Toks const& t){ return std::to_string(W().s(t.at(1)).IsPatched()); };
	h["svars"] = [](Toks const& t){ return names(W().s(t.at(1)).Variables()); };
	h["sord"] = [](Toks const& t){ return names(W().s(t.at(1)).VariableOrdering()); };
	h["sgsizes"] = [](Toks const& t){ std::string s; for (auto d: W().s(t.at(1)).VariableGroupSizes()) s += (s.empty()?"":" ")+std::to_string(d); return s; };
	h["scounts"] = [](Toks const& t){ auto& s = W().s(t.at(1)); std::stringstream o;
		o << s.NumNaturalFunctions() << " " << s.NumTotalFunctions() << " " << s.NumVariables() << " " << s.NumNaturalVariables() << " " << s.NumHomVariables() << " " << s.NumVariableGroups() << " " << s.NumHomVariableGroups() << " " << s.NumUngroupedVariables() << " " << s.NumPatches() << " " << s.HavePathVariable();
		return o.str(); };
	h["spcoef"] = [](Toks const& t){ // the patch's coefficients, seen through its Jacobian, at the given precision
		auto& s = W().s(t.at(1)); auto p = s.GetPatch(); unsigned d = std::stoul(t.at(3));
		if (t.at(2)=="dbl") { Vec<dbl> x = Vec<dbl>::Zero(s.NumVariables()); return showm(p.Jacobian(x)); }
		auto old = bertini::DefaultPrecision(); bertini::DefaultPrecision(d);
		p.Precision(d); Vec<mpfr_complex> x(s.NumVariables()); for (int i=0;i<x.size();++i) x(i)=conv<mpfr_complex>::from(crat("0"),d);
		auto r = showm(p.Jacobian(x)); bertini::DefaultPrecision(old); return r; };
	h["sgdegs"] = [](Toks const& t){ // degrees in a group given by the names of the system's own variables
		auto& s = W().s(t.at(1)); bertini::VariableGroup g;
		for (size_t i=2;i<t.size();++i) for (auto& v: s.Variables()) if (v->name()==t[i]) g.push_back(v);
		std::string r; for (auto d: s.Degrees(g)) r += (r.empty()?"":" ")+std::to_string(d); return r; };
	h["sprint"] = [](Toks const& t){ std::stringstream ss; ss << W().s(t.at(1)); return oneline(ss.str()); };
	h["sfns"] = [](Toks const& t){ // register the system's functions as nodes prefix0, prefix1, ...
		auto fs = W().s(t.at(1)).GetNaturalFunctions(); for (size_t i=0;i<fs.size();++i) W().nodes[t.at(2)+std::to_string(i)] = fs[i]; return std::to_string(fs.size()); };
	h["svarreg"] = [](Toks const& t){ // register the system's own variables under prefix+name
		for (auto& v: W().s(t.at(1)).Variables()) { W().vars[t.at(2)+v->name()] = v; W().nodes[t.at(2)+v->name()] = v; } return std::string(); };
	h["spathreg"] = [](Toks const& t){ auto v = W().s(t.at(1)).GetPathVariable(); W().vars[t.at(2)] = v; W().nodes[t.at(2)] = v; return std::string(); };
}
}
