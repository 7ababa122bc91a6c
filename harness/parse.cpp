// classic input text: systems, numbers, settings
#include "tree.hpp"
#include "bertini2/io/parsing/system_parsers.hpp"
#include "bertini2/io/parsing/number_parsers.hpp"
#include "bertini2/io/parsing/classic_utilities.hpp"
#include <fstream>
#include <cstdio>
#include <stdlib.h>
#include <unistd.h>
namespace rep {
// text arrives as one token: \n newline, \t tab, \s space, \p percent
std::string untoken(std::string const& s)
{
	std::string r;
	for (size_t i=0;i<s.size();++i)
		if (s[i]=='\\' && i+1<s.size()) { ++i; r += s[i]=='n' ? '\n' : s[i]=='t' ? '\t' : s[i]=='s' ? ' ' : s[i]; }
		else r += s[i];
	return r;
}
struct Quiet { // the parsers report errors on std::cout, where the answers go
	std::stringstream sink; std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet(){ std::cout.rdbuf(old); }
};
void parse_handlers(std::map<std::string,Handler>& h)
{
	h["psys"] = [](Toks const& t){ Quiet q; W().sys[t.at(1)] = std::make_shared<bertini::System>(untoken(t.at(2))); return std::string(); };
	h["pparse"] = [](Toks const& t){ Quiet q; std::string s = untoken(t.at(2)); auto p = std::make_shared<bertini::System>();
		if (!bertini::parsing::classic::parse(s.begin(),s.end(),*p)) throw std::runtime_error("not parsed"); W().sys[t.at(1)] = p; return std::string(); };
	h["pfile"] = [](Toks const& t){ Quiet q; auto f = bertini::parsing::classic::ParseInputFile(untoken(t.at(2))); if (!f.Readable()) throw std::runtime_error("not readable");
		W().sys[t.at(1)] = std::make_shared<bertini::System>(f.Input()); return oneline(f.Config()); };
	h["pdisk"] = [](Toks const& t){ Quiet q; char name[] = "/tmp/b2inputXXXXXX"; int fd = mkstemp(name); if (fd<0) throw std::logic_error("harness: no scratch file");
		{ std::ofstream f(name); f << untoken(t.at(2)); } close(fd);
		std::string config, input; bertini::parsing::classic::SplitIntoConfigAndInput(config, input, bertini::Path(name)); std::remove(name);
		W().sys[t.at(1)] = std::make_shared<bertini::System>(input); return oneline(config); };
	h["pnum"] = [](Toks const& t){ Quiet q; std::string s = untoken(t.at(2));
		if (t.at(1)=="real") { mpfr_float x; if (!bertini::parsing::classic::parse(s.begin(),s.end(),x)) throw std::runtime_error("not parsed"); return show(x)+" "+std::to_string(x.precision()); }
		mpfr_complex z; if (!bertini::parsing::classic::parse(s.begin(),s.end(),z)) throw std::runtime_error("not parsed"); return show(z)+" "+std::to_string(z.precision()); };
	h["psplit"] = [](Toks const& t){ Quiet q; auto p = bertini::parsing::classic::ParseInputFile(untoken(t.at(1))); auto e = [](std::string s){ std::string r; for (char c: s) r += c=='\n' ? std::string("\\n") : c==' ' ? "\\s" : c=='\t' ? "\\t" : std::string(1,c); return r; }; return std::to_string(p.Readable())+" ["+e(p.Config())+"] ["+e(p.Input())+"]"; };
}
}
