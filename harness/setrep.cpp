#include "rep.hpp"
namespace rep { void set_handlers(std::map<std::string,Handler>& h); }
int main(){ std::map<std::string,rep::Handler> h; rep::set_handlers(h); return rep::run(h); }
