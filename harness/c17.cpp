// C17: the life of telnet sessions.
#include "hnet.h"
using namespace cli;
#ifndef STEPS
#define STEPS 4
#endif
#ifndef TLEN
#define TLEN 4
#endif
static const std::string banner("\xff\xfd\x22\xff\xfa\x22\x01\x00\xff\xf0\xff\xfb\x01",13);
struct Client { Conn k; std::string want, line; bool noisy=false /*errors injected*/, exited=false, lost=false; int exits=0; std::ostream* out=nullptr; };
struct Life {
    std::vector<Client> cl; std::unique_ptr<NetWorld> w; int enters=0, gx=0, sx=0, says=0, cur=-1; std::string tag="";
    Life(bool actions=true) {
        SetNoColor(); auto m=std::make_unique<Menu>("R"); m->Insert("say",[this](std::ostream& o){ ++says; o << "a\nb" << '\n' << std::flush; });
        w.reset(new NetWorld(std::move(m)));
        if (actions) {
            w->c->EnterAction([this](std::ostream& o){ ++enters; o << "GE\n"; }); w->srv->EnterAction([this](std::ostream& o){ o << "SE\n"; if (!cl.empty()) cl.back().out=&o; });
            w->srv->ExitAction([this](std::ostream& o){ ++sx; o << "SX\n"; for (auto& c : cl) if (c.out==&o) { ++c.exits; symx_assert(c.k->closes==0,"the exit action runs before the connection is closed"); } }); w->c->ExitAction([this](std::ostream& o){ ++gx; o << "GX\n"; symx_assert(gx==sx,"session exit action, then the global one"); });
        }
    }
    template <class F> void guarded(F f) { try { f(); } catch (...) { symx_assert(0,"an exception escapes to the event loop"); } }
    void connect(bool act=true) { cl.emplace_back(); Client& c=cl.back(); guarded([&]{ c.k=Acceptor::last()->mockConnect(); w->run(); }); c.want=banner+(act?"GE\r\nSE\r\n":"")+"R> "; symx_assert(enters==(act?(int)cl.size():0),"the enter actions run once for each connection"); symx_reach("connected"); }
    void run() { guarded([&]{ w->run(); }); }
    void send(Client& c, const std::string& s) { if (c.k->peerGone) symx_prune(); c.k->deliver(s); if (c.exited || c.lost) return; for (size_t i=0;i<s.size();++i) { if (s[i]!='\r') { c.line+=s[i]; c.want+=s[i]; } else { ++i; c.want+="\r\r\n"; if (c.line=="exit") { c.want+="SX\r\nGX\r\n"; c.exited=true; return; } if (c.line=="say") c.want+="a\r\nb\r\n"; c.line.clear(); c.want+="R> "; } } }
    void check() { // once everything has settled
        int ex=0;
        for (auto& c : cl) { observe(c.k->out); if (!c.noisy) expectEq(c.k->out,c.want,"what the client receives"); symx_assert(c.k->closes==(c.exited||c.lost?1:0),"the connection is closed exactly at the end of its session"); if (c.exited) ++ex; if (c.out) symx_assert(c.exits<=1 && c.exits==(c.exited?1:0),"the exit action of each session runs once"); }
        symx_assert(sx==gx && sx==ex,"the exit actions run once at exit");
    }
};
ENTRY(h_life) { // any order of what clients and network do
    Life L; L.connect();
    for (int s=0;s<STEPS;++s) {
        int n=(int)L.cl.size(); Client& c=L.cl[n==1?0:pick("client",n)];
        switch (pick("what",11)) {
            case 0: if (n>=2 || !L.w->srv) symx_prune(); L.connect(); break;
            case 1: L.send(c,"exit\r\n"); symx_reach("exit"); break;
            case 2: L.send(c,"say\r\n"); break;
            case 3: L.send(c,"q"); L.run(); break;
            case 4: if (c.k->peerGone) symx_prune(); c.k->fail(asio::error::eof); c.lost=true; symx_reach("closed by the peer"); break;
            case 5: if (c.k->peerGone) symx_prune(); c.k->fail(pick("err",2)?asio::error_code(asio::error::connection_reset):asio::error_code(asio::error::timed_out)); c.k->outError=asio::error::broken_pipe; c.noisy=c.lost=true; symx_reach("network error"); break;
            case 6: if (c.noisy) symx_prune(); c.k->outError=pick("werr",2)?asio::error_code(asio::error::eof):asio::error_code(asio::error::broken_pipe); c.noisy=true; break;
            case 7: L.guarded([&]{ L.w->sch->PollOne(); }); break;
            case 8: L.run(); break;
            case 9: if (!L.w->srv) symx_prune(); L.w->srv.reset(); symx_reach("server destroyed"); break;
            case 10: L.run(); L.guarded([&]{ Cli::cout() << "hi\n" << std::flush; }); for (auto& x : L.cl) if (!x.exited && !x.lost) x.want+="hi\r\n"; symx_reach("broadcast"); break;
        }
    }
    if (!pick("early",2)) { L.run(); L.check(); }
    if (pick("stop",2)) L.w->sch->Stop();
    L.w->srv.reset(); if (pick("after",2)) { L.run(); } L.w.reset(); symx_assert(asio::io_context::live()==0,"the context of the scheduler is destroyed with it");
    for (auto& c : L.cl) symx_assert(c.k->closes==1,"every connection is closed at the end"); symx_reach("end");
}
ENTRY(h_pair) { // two clients do not disturb each other
    asio::mock::conn::slow()=pick("slow",2)?2:(size_t)-1;
    Life L; L.connect(); L.connect(); std::string a[]={"say\r\n","q","exit\r\n"}; for (int s=0;s<STEPS;++s) { Client& c=L.cl[pick("client",2)]; int i=pick("text",4); if (i<3) L.send(c,a[i]); else { if (c.k->peerGone) symx_prune(); c.k->fail(asio::error::eof); c.lost=true; } if (pick("run",2)) L.run(); }
    L.run(); L.check(); symx_reach("pair");
}
ENTRY(h_none) { // no actions at all
    Life L(false); L.connect(false); L.send(L.cl[0],"say\r\nexit\r\n"); L.cl[0].want.resize(L.cl[0].want.size()-8); L.run(); expectEq(L.cl[0].k->out,L.cl[0].want,"what the client receives"); symx_assert(L.cl[0].k->closes==1 && L.cl[0].k->shutdowns==1,"exit closes the connection"); symx_reach("exit");
}
ENTRY(h_text) { // everything written to the client, however slow
    asio::mock::conn::slow()=pick("slow",2)?1+pick("piece",2):(size_t)-1;
    std::string t=symString(TLEN,"t"); int how=pick("how",4); SetNoColor(); auto m=std::make_unique<Menu>("R");
    m->Insert("p",[&](std::ostream& o){ if (how==0) o << t; else if (how==1) for (char c : t) o.put(c); else if (how==2) { o.write(t.data(),1); o << t.substr(1) << std::flush; } else { for (char c : t) o << c; o << std::endl; } });
    NetWorld w(std::move(m)); Conn k=w.connect(); k->deliver("p"); w.run(); size_t from=k->out.size(); k->deliver("\r\n"); w.run(); std::string got=k->out.substr(from); observe(got);
    std::string want="\r\r\n"+crlf(t+(how==3?"\n":""))+"R> "; expectEq(got,want,"newlines as carriage return and newline, and nothing else changed"); symx_reach("text");
}
ENTRY(h_history) { // the history of a session goes to the storage and to the next one
    SetNoColor(); auto m=std::make_unique<Menu>("R"); m->Insert("say",[](std::ostream& o){ o << "hello\n"; }); NetWorld w(std::move(m),3+pick("size",2)); Conn a=w.connect(); a->deliver("say\r\nexit\r\n"); w.run(); symx_assert(a->closes==1,"closed"); Conn b=w.connect(); size_t from=b->out.size(); b->deliver("\x1b[A\x1b[A"); w.run(); expectEq(b->out.substr(from),"exit\b\b\b\bsay \b","recalls the commands of the previous session"); b->deliver("\r\n"); w.run(); symx_assert(b->out.find("hello")!=std::string::npos,"runs it"); symx_reach("recalled");
}
ENTRY(h_accept) { // failed accepts do not stop the server; servers built on an address
    SetNoColor(); Cli c(std::make_unique<Menu>("R")); AsioSched s; TelnetServer srv(c,s,std::string("127.0.0.1"),6000); int n=pick("failures",3); for (int i=0;i<n;++i) { Acceptor::last()->mockFail(asio::error::no_descriptors); s.PollOne(); symx_assert(Acceptor::last()->mockWaiting(),"still accepting"); } Conn k=Acceptor::last()->mockConnect(); while (s.AsioContext().ready()) s.PollOne(); expectEq(k->out,banner+"R> ","served"); symx_assert(Acceptor::last()->mockWaiting(),"still accepting"); symx_reach("accepted");
}
ENTRY(h_big) { // thousands of bytes of output, a newline anywhere
    asio::mock::conn::slow()=pick("slow",2)?1000:(size_t)-1;
    static const int sizes[]={1,127,128,129,255,256,257,1023,1024,1025,4095,4096,4097,8191}; int n=sizes[pick("size",14)]; std::string c=symString(2,"c"); std::string t(n,'a'); t+=c; t+=std::string(300,'b'); int how=pick("how",3); SetNoColor(); auto m=std::make_unique<Menu>("R");
    m->Insert("p",[&](std::ostream& o){ if (how==0) o << t; else if (how==1) for (char x : t) o.put(x); else { o << t.substr(0,t.size()/2) << std::flush; o << t.substr(t.size()/2) << std::endl; } });
    NetWorld w(std::move(m)); Conn k=w.connect(); k->deliver("p"); w.run(); size_t from=k->out.size(); k->deliver("\r\n"); w.run(); std::string got=k->out.substr(from);
    expectEq(got,"\r\r\n"+crlf(t+(how==2?"\n":""))+"R> ","newlines as carriage return and newline, and nothing else changed"); symx_reach("big");
}
ENTRY(h_many) { // many clients at once, and many one after the other
    Life L; int n=pick("clients",2)?20:5; for (int i=0;i<n;++i) L.connect(); int a=pick("a",n), b=(a+1+3*pick("b",n/4))%n; if (a==b) symx_prune();
    L.send(L.cl[a],"say\r\n"); L.send(L.cl[b],"exit\r\n"); L.run(); L.check(); int how=pick("how",3); if (how==0) { L.cl[a].k->fail(asio::error::eof); L.cl[a].lost=true; } else if (how==1) { L.cl[a].k->fail(asio::error::connection_reset); L.cl[a].noisy=L.cl[a].lost=true; } else L.send(L.cl[a],"exit\r\n");
    L.run(); L.check(); for (auto& c : L.cl) L.send(c,"say\r\n"); L.run(); L.check(); L.connect(); L.guarded([&]{ Cli::cout() << "hi\n" << std::flush; }); for (auto& x : L.cl) if (!x.exited && !x.lost) x.want+="hi\r\n"; L.run(); L.check();
    L.w->srv.reset(); L.run(); L.w.reset(); for (auto& c : L.cl) symx_assert(c.k->closes==1,"every connection is closed at the end"); symx_assert(asio::io_context::live()==0,"the context of the scheduler is destroyed with it"); symx_reach("many");
}
ENTRY(h_row) { Life L; int n=60; for (int i=0;i<n;++i) { L.connect(); Client& c=L.cl.back(); L.send(c,"say\r\n"); L.run(); int how=i%4==3?pick("how",3):i%3; if (i>12 && i%4==3 && how!=i%3) symx_prune(); if (how==0) L.send(c,"exit\r\n"); else if (how==1) { c.k->fail(asio::error::eof); c.lost=true; } else { c.k->fail(asio::error::connection_reset); c.noisy=c.lost=true; } L.run(); L.check(); } L.connect(); L.run(); L.check(); symx_reach("row"); }
