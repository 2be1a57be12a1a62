// A menu whose commands log what they are called with (per output stream), for the properties about whole sessions.
#pragma once
#include "hcli.h"
#include <cstdint>
struct Tree {
    struct Call { std::ostream* who; std::string text; }; std::vector<Call> calls; int depth=0;
    void hit(std::ostream& o, const std::string& t) { calls.push_back(Call{&o,t}); o << "<" << t << ">\n"; }
    std::vector<std::string> of(std::ostream* o) const { std::vector<std::string> r; for (auto& c : calls) if (c.who==o) r.push_back(c.text); return r; }
    std::unique_ptr<cli::Menu> menu() {
        auto m=std::make_unique<cli::Menu>("R");
        m->Insert("a",[this](std::ostream& o){ hit(o,"a"); },"no parameters");
        m->Insert("b",[this](std::ostream& o, int n){ hit(o,"b"+std::to_string(n)); });
        m->Insert("c",[this](std::ostream& o, const std::string& x){ hit(o,"c"+x); });
        m->Insert("v",[this](std::ostream& o, const std::vector<std::string>& x){ std::string t="v"; for (auto& s : x) t+="|"+s; hit(o,t); });
        m->Insert("t",[this](std::ostream& o){ hit(o,"t"); throw std::runtime_error("T"); });
        auto s=std::make_unique<cli::Menu>("m"); s->Insert("a",[this](std::ostream& o){ hit(o,"ma"); }); s->Insert("ab",[this](std::ostream& o, unsigned char x){ hit(o,"mab"+std::to_string((int)x)); });
        m->Insert(std::move(s)); return m;
    }
    void watch(cli::Cli& c) { c.EnterAction([](std::ostream& o){ o << "hello\n"; }); c.ExitAction([](std::ostream& o){ o << "bye\n"; }); c.WrongCommandHandler([this](std::ostream& o, const std::string& l){ calls.push_back(Call{&o,"?"+l}); o << "unknown\n"; }); c.StdExceptionHandler([this](std::ostream& o, const std::string& l, const std::exception&){ calls.push_back(Call{&o,"!"+l}); o << "thrown\n"; }); }
};
inline void sameList(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* msg) { symx_assert(a.size()==b.size(),msg); if (a.size()==b.size()) for (size_t i=0;i<a.size();++i) expectEq(a[i],b[i],msg); }
