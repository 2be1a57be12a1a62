// C22: the global output stream.
#include "hcli.h"
using namespace cli;
#ifndef OPS
#define OPS 4
#endif
// a stream that notices writes after its session is gone
ENTRY(h_sessions) { // create / destroy / write in any order, two streams shared or not
    Cli c(std::make_unique<Menu>("R")), c2(std::make_unique<Menu>("Q")); std::ostringstream* st[2]={new std::ostringstream,new std::ostringstream}; std::string want[2];
    struct S { std::unique_ptr<CliSession> s; int st; }; std::vector<S> live;
    for (int k=0;k<OPS;++k) {
        int op=pick("op",6);
        if (op<=1) { if (live.size()>=3) symx_prune(); live.push_back({std::unique_ptr<CliSession>(new CliSession(live.size()%2?c2:c,*st[op])),op}); }
        else if (op==2) { if (live.empty()) symx_prune(); size_t i=pick("which",(int)live.size()); live.erase(live.begin()+i); symx_reach("destroyed"); }
        else if (op==3) { std::string x=symString(pick("len",3),"text"); Cli::cout() << x; for (auto& l : live) want[l.st]+=x; symx_reach("string"); }
        else if (op==4) { std::string x=symString(1,"char"); Cli::cout() << x[0] << std::endl; int n[2]={0,0}; for (auto& l : live) ++n[l.st]; for (int i=0;i<2;++i) want[i]+=std::string(n[i],x[0])+std::string(n[i],(char)10); symx_reach("char"); }
        else { Cli::cout() << "n=" << 42 << '\n'; 
            int n[2]={0,0}; for (auto& l : live) ++n[l.st]; for (int i=0;i<2;++i) { std::string w="n=42\n", g=st[i]->str(); if (n[i]==1) want[i]+=w; else if (n[i]) { size_t from=want[i].size(); symx_assert(g.size()==from+n[i]*w.size(),"each session gets the text once"); if (g.size()==from+n[i]*w.size()) { for (char ch : w) { int m=0; for (size_t q=from;q<g.size();++q) if (g[q]==ch) ++m; symx_assert(m==n[i],"each session gets the text once"); } want[i]+=g.substr(from); } } } symx_reach("mixed"); }
        for (int i=0;i<2;++i) { observe(st[i]->str()); expectEq(st[i]->str(),want[i],"every live session gets the text once, in order, and no other one"); }
    }
    for (int i=0;i<2;++i) { bool used=false; for (auto& l : live) if (l.st==i) used=true; if (!used) { delete st[i]; st[i]=nullptr; symx_reach("stream gone"); } }
    Cli::cout() << "end"; for (auto& l : live) want[l.st]+="end"; for (int i=0;i<2;++i) if (st[i]) expectEq(st[i]->str(),want[i],"every live session gets the text once");
    live.clear(); Cli::cout() << "nobody"; for (int i=0;i<2;++i) if (st[i]) expectEq(st[i]->str(),want[i],"a destroyed session still gets output"); for (int i=0;i<2;++i) delete st[i];
}
ENTRY(h_from_handler) { // broadcast from a command, from the enter and exit actions, while sessions come and go
    std::ostringstream a,b; std::string wa,wb; auto root=std::make_unique<Menu>("R"); std::unique_ptr<CliSession> other; bool exited=false; std::string x=symString(2,"text"); Cli* cp=nullptr;
    root->Insert("say",[&](std::ostream& o){ Cli::cout() << x; o << "own"; }); root->Insert("kill",[&](std::ostream&){ other.reset(); Cli::cout() << x; }); root->Insert("open",[&](std::ostream&){ other.reset(new CliSession(*cp,b)); Cli::cout() << x; });
    Cli c(std::move(root)); cp=&c; c.EnterAction([&](std::ostream&){ Cli::cout() << "<"; }); c.ExitAction([&](std::ostream&){ Cli::cout() << ">"; }); CliSession s(c,a);
    for (int k=0;k<OPS-1;++k) {
        switch (pick("op",4)) {
            case 0: s.Feed("say"); wa+=x+"own"; if (other) wb+=x; break;
            case 1: if (!other) symx_prune(); s.Feed("kill"); wa+=x; break;
            case 2: if (other) symx_prune(); s.Feed("open"); exited=false; wa+=x; wb+=x; break;
            default: if (!other) symx_prune(); other->Enter(); other->Exit(); wa+=exited?"<":"<>"; wb+=exited?"<":"<>"; exited=true; break;
        }
        observe(a.str()); observe(b.str()); expectEq(a.str(),wa,"output of the first session"); expectEq(b.str(),wb,"output of the second session"); symx_reach("said");
    }
}
ENTRY(h_big) { // dozens of sessions, long texts
    Cli c(std::make_unique<Menu>("R")); static const int counts[]={8,9,16,17,32,33}; int n=counts[pick("n",6)]; std::vector<std::unique_ptr<std::ostringstream>> st; std::vector<std::unique_ptr<CliSession>> s; std::vector<std::string> want(n+1);
    for (int i=0;i<n;++i) { st.emplace_back(new std::ostringstream); s.emplace_back(new CliSession(c,*st[i])); } std::string x=symString(1,"x"), t(300,'a'); t+=x; t+=std::string(3000*pick("long",2),'b');
    auto say=[&]{ Cli::cout() << t << '\n' << std::flush; for (size_t i=0;i<s.size();++i) if (s[i]) want[i]+=t+"\n"; for (size_t i=0;i<s.size();++i) expectEq(st[i]->str(),want[i],"every live session gets the text once, in order, and no other one"); };
    say(); int a=pick("a",4)*n/4, b=pick("b",2)?n-1:(a+1)%n; s[a].reset(); say(); if (b!=a) { s[b].reset(); say(); } st.emplace_back(new std::ostringstream); s.emplace_back(new CliSession(c,*st[n])); say(); symx_reach("big");
    for (auto& p : s) p.reset(); say();
}
struct Sink : std::streambuf { std::string t; bool chars=false; std::streamsize xsputn(const char* s, std::streamsize n) override { t.append(s,(size_t)n); return n; } int overflow(int c) override { if (c!=EOF) t+=(char)c; return 0; } };
ENTRY(h_state) { // whatever the state and the format settings of the streams of the sessions
    Cli c(std::make_unique<Menu>("R")); Sink b[3]; std::ostream o0(&b[0]), o1(&b[1]), o2(&b[2]), none(nullptr); std::ostream* o[3]={&o0,&o1,&o2}; bool sink=pick("no buffer",2); std::unique_ptr<CliSession> s[4]; int at=pick("at",3); for (int i=0;i<3;++i) { if (sink && i==at) s[3].reset(new CliSession(c,none)); s[i].reset(new CliSession(c,*o[i])); }
    int st=pick("state",5), who=pick("who",3); std::ostream& x=*o[who]; auto setup=[&] { switch (st) { case 0: x.setstate(std::ios::failbit); break; case 1: x.setstate(std::ios::badbit); break; case 2: x.setstate(std::ios::eofbit); break; case 3: x.width(4); x.fill('*'); break; default: x.setf(std::ios::hex|std::ios::showbase|std::ios::uppercase|std::ios::unitbuf|std::ios::left); } };
    std::string t=symString(2,"text"), want; for (int k=0;k<3;++k) { setup(); switch (pick("op",5)) { case 0: Cli::cout() << t; want+=t; symx_reach("text"); break; case 1: Cli::cout() << t[1] << std::endl; want+=t[1]; want+='\n'; symx_reach("char"); break; case 2: Cli::cout().put(t[0]); want+=t[0]; symx_reach("put"); break; case 3: Cli::cout() << 75 << '\n'; want+="75\n"; break; default: Cli::cout().write(t.data(),2); want+=t; }
        symx_assert(Cli::cout().good(),"the global stream is still good"); for (int i=0;i<3;++i) { observe(b[i].t); expectEq(b[i].t,want,"every live session gets the text once, in order, and nothing else"); } }
}
