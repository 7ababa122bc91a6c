#include "tree.hpp"
int main(){ std::map<std::string,rep::Handler> h; rep::tree_handlers(h); rep::system_handlers(h); rep::start_handlers(h); return rep::run(h); }
