#include "tree.hpp"
namespace rep { void parse_handlers(std::map<std::string,Handler>& h); }
int main(){ std::map<std::string,rep::Handler> h; rep::tree_handlers(h); rep::system_handlers(h); rep::parse_handlers(h); return rep::run(h); }
