// C28: whatever comes in, the application goes on: no crash, no exception to the event loop, the session stays usable until it exits, and can be destroyed.
#include "hsess.h"
#include "hkeys.h"
#include <cli/clifilesession.h>
#ifdef NETWORK
#include "hnet.h"
#ifdef USE_BOOST
#include <cli/boostasiocliasyncsession.h>
typedef cli::BoostAsioCliAsyncSession Async;
#else
#include <cli/standaloneasiocliasyncsession.h>
typedef cli::StandaloneAsioCliAsyncSession Async;
#endif
#endif
#ifndef BYTES
#define BYTES 3
#endif
#ifndef LINES
#define LINES 2
#endif
using namespace cli; using namespace cli::detail;
template <typename F> static void safe(F f) { try { f(); } catch (...) { symx_assert(0,"an exception reaches the event loop"); } }
// which lines come before, so that there are a history, a submenu, something disabled or removed
static const char* const befores[]={"","a\n","m\na\n","c x\nzz\n","m\nab 1\n!\n"};
static const int NB=(int)(sizeof befores/sizeof *befores);
#ifndef NETWORK
struct World { Tree t; std::unique_ptr<Cli> c; CmdHandler h; explicit World(bool handler=true) { SetNoColor(); auto m=t.menu(); h=m->Insert("e",[](std::ostream&){}); c.reset(new Cli(std::move(m))); if (handler) t.watch(*c); } };
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; std::string l; for (char c : s) if (c=='\n') { r.push_back(l); l.clear(); } else l+=c; if (!l.empty()) r.push_back(l); return r; }
ENTRY(h_plain) { // any lines, completions and walks through the history
    World w; std::ostringstream out; bool exited=false; { CliSession s(*w.c,out,pick("hist",2)*2); s.ExitAction([&](std::ostream&){ exited=true; }); safe([&]{ s.Enter(); for (auto& l : split(befores[pick("before",NB)])) { s.Feed(l); s.Prompt(); } 
        int lines=LINES; for (int i=0;i<lines;++i) { std::string l=symString(i?1:BYTES,"l"); switch (pick("how",3)) { case 0: s.Feed(l); s.Prompt(); break; case 1: observe(s.PreviousCmd(l)); observe(s.NextCmd()); break; default: for (auto& x : s.GetCompletions(l)) observe(x); break; } } });
      size_t n=w.t.of(&out).size(); safe([&]{ s.Feed("R"); s.Feed("../c xyz"); s.Feed("c xyz"); }); auto v=w.t.of(&out); symx_assert(!v.empty() && v.back()=="cxyz","still usable"); symx_assert(v.size()>n,"usable"); observe(out.str()); }
    CliSession s2(*w.c,out,3); safe([&]{ s2.Feed("a"); }); symx_assert(w.t.of(&out).back()=="a","another session is usable"); if (exited) symx_reach("exited"); symx_reach("plain");
}
ENTRY(h_raw) { // any line, with the default handlers for what goes wrong
    World w(false); std::ostringstream out; CliSession s(*w.c,out); safe([&]{ s.Feed(symString(BYTES+1,"l")); s.Prompt(); s.Feed("t"); s.Prompt(); }); observe(out.str()); size_t n=w.t.of(&out).size(); safe([&]{ s.Feed("a"); s.Feed("../a"); }); symx_assert(w.t.of(&out).size()>n,"still usable"); symx_reach("raw");
}
ENTRY(h_file) { // any bytes in a file
    World w; std::ostringstream out; std::istringstream in(befores[pick("before",NB)]+symString(BYTES,"b")); int x=0; w.c->ExitAction([&](std::ostream&){ ++x; }); safe([&]{ CliFileSession f(*w.c,in,out); f.Start(); }); symx_assert(x==1,"it ends"); observe(out.str());
    std::istringstream in2("a\n"); std::ostringstream out2; safe([&]{ CliFileSession f(*w.c,in2,out2); f.Start(); }); symx_assert(x==2 && w.t.of(&out2).size()==1,"another session is usable"); symx_reach("file");
}
static const KeyType types[]={KeyType::ascii,KeyType::up,KeyType::down,KeyType::left,KeyType::right,KeyType::backspace,KeyType::canc,KeyType::home,KeyType::end,KeyType::ret,KeyType::eof,KeyType::ignored,KeyType::clear};
ENTRY(h_keys) { // any keys
    Tree t; auto m=t.menu(); KeyWorld w(std::move(m),pick("hist",2)*3); t.watch(*w.c); bool exited=false; w.s->ExitAction([&](std::ostream&){ exited=true; }); SetNoColor();
    safe([&]{ for (const char* p=befores[pick("before",NB)];*p;++p) w.kb.key(*p=='\n'?KeyType::ret:KeyType::ascii,*p);
        int first=pick("text",4); for (const char* p=first==0?"":first==1?"m":first==2?"zq":"c \"";*p;++p) w.kb.key(KeyType::ascii,*p);
        for (int i=0;i<BYTES;++i) { int k=pick("key",13); w.kb.key(types[k],k?' ':symString(1,"k")[0]); } observe(w.out.str());
        w.kb.key(KeyType::ret); size_t n=t.calls.size(); for (char c : std::string("\nR\n../a\n")) w.kb.key(c=='\n'?KeyType::ret:KeyType::ascii,c); symx_assert(t.calls.size()>n,"still usable"); });
    if (exited) symx_reach("exited"); w.cp.reset(); w.s.reset(); symx_reach("keys");
}
ENTRY(h_big) { // large inputs of every kind
    World w; std::ostringstream out; std::string x=symString(1,"x"); int how=pick("how",8); static const int sizes[]={600,5000}; int n=sizes[pick("size",2)]; std::string l; auto rep=[&](const char* p) { for (int i=0;i<n;++i) l+=p; };
    switch (how) { case 0: rep("\""); break; case 1: rep("\\"); break; case 2: rep("!"); break; case 3: rep("a "); break; case 4: rep("../"); break; case 5: rep("m/"); break; case 6: l="v "; rep("'\"\\ "); break; default: l="b "; rep("9"); break; }
    size_t at=pick("at",3); std::string in=l; in.insert(at==0?0:at==1?l.size()/2:l.size(),x);
    { CliSession s(*w.c,out,3); safe([&]{ s.Feed("a"); s.Feed(in); s.Prompt(); s.GetCompletions(in); s.PreviousCmd(in); s.Feed("../a"); s.Feed("a"); }); } symx_assert(w.t.of(&out).size()>=2,"usable"); symx_reach("big");
}
#else
struct CoutCapture : std::streambuf { std::string s; std::streambuf* old; CoutCapture() { old=std::cout.rdbuf(this); } ~CoutCapture() override { std::cout.rdbuf(old); } std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p,(size_t)n); return n; } int overflow(int c) override { if (c!=-1) s+=(char)c; return c; } };
struct World { Tree t; CoutCapture cap; std::unique_ptr<Cli> c; std::unique_ptr<AsioSched> sch; std::unique_ptr<::TelnetServer> srv; World() { SetNoColor(); c.reset(new Cli(t.menu())); t.watch(*c); sch.reset(new AsioSched()); srv.reset(new ::TelnetServer(*c,*sch,5000,3)); } ~World() { srv.reset(); sch.reset(); c.reset(); }
    void run() { safe([&]{ while (sch->AsioContext().ready() && !sch->Stopped()) sch->PollOne(); }); } Conn open() { auto k=Acceptor::last()->mockConnect(); run(); return k; } };
static std::string crlfs(const char* s) { std::string r; for (;*s;++s) { if (*s=='\n') r+='\r'; r+=*s; } return r; }
static void give(const Conn& k, const std::string& s) { if (!s.empty()) k->deliver(s); }
ENTRY(h_net) { // any bytes from a telnet client, in one or more packets
    World w; Conn k=w.open(), o=w.open(); give(k,crlfs(befores[pick("before",3)])); w.run(); static const char* const firsts[]={"","\xff","\xff\xfa","\x1b","\x1b[","m"}; std::string s=firsts[pick("first",6)]+symString(BYTES,"b"); int cut=pick("cut",(int)s.size()+1); give(k,s.substr(0,cut)); give(k,s.substr(cut)); w.run(); observe(k->out);
    if (k->closes==0) { size_t n=w.t.calls.size(); k->deliver("\xff\xf0"); w.run(); if (k->closes==0) k->deliver("\xff\xf0z\r\n\r\n\r\nR\r\n../a\r\n"); w.run(); symx_assert(k->closes>0 || w.t.calls.size()>n,"still usable"); symx_reach("open"); } else symx_reach("closed");
    size_t n=w.t.calls.size(); o->deliver("a\r\n"); w.run(); symx_assert(w.t.calls.size()==n+1 && w.t.calls.back().text=="a","another client is served"); Conn p=w.open(); p->deliver("a\r\n"); w.run(); symx_assert(w.t.calls.size()==n+2,"a new client is served"); k->fail(asio::error::eof); w.run(); symx_reach("net");
}
ENTRY(h_flood) { // a lot of bytes of one sort from a telnet client, in one packet or one by one
    World w; Conn k=w.open(), o=w.open(); std::string x=symString(1,"x"); static const std::string sorts[]={"x","\xff\xfa\x18","\xff\xfd\x03","\x1b[3","\t","\x1b[A","\xff\xff","\b","1;","\r","\"","!"}; int head=pick("head",3), sort=pick("sort",12); std::string s=head==0?"":head==1?"\xff\xfa\x18":"\x1b["; int n=pick("size",2)?1100:300; for (int i=0;i<n;++i) s+=sorts[sort]; s+=x; for (size_t i=0;i<s.size();i+=1500) { k->deliver(s.substr(i,1500)); w.run(); }
    k->deliver("z\xff\xf0\r\n\r\n"); w.run(); size_t n0=w.t.calls.size(); k->deliver("a\r\n"); w.run(); symx_assert(k->closes>0 || w.t.calls.size()==n0+1,"still usable"); symx_reach(k->closes?"closed":"open"); n0=w.t.calls.size(); o->deliver("a\r\n"); w.run(); symx_assert(w.t.calls.size()==n0+1,"another client is served"); symx_reach("flood");
}
ENTRY(h_async) { // any bytes on an asynchronous input
    asio::mock::stdinConn()=std::make_shared<asio::mock::conn>(); auto in=asio::mock::stdinConn(); World w; std::unique_ptr<Async> a(new Async(*w.sch,*w.c)); bool ex=false; a->ExitAction([&](std::ostream&){ ex=true; }); w.run(); give(in,befores[pick("before",NB)]); std::string s=symString(BYTES,"b"); int cut=pick("cut",(int)s.size()); give(in,s.substr(0,cut)); w.run(); give(in,s.substr(cut)); w.run(); observe(w.cap.s);
    size_t n=w.t.calls.size(); in->deliver("\nR\n../a\n"); w.run(); symx_assert(w.t.calls.size()>n,"still usable"); if (ex) symx_reach("exited"); if (pick("end",2)) { in->fail(asio::error::eof); w.run(); symx_assert(ex,"it ends"); } a.reset(); w.run(); symx_reach("async");
}
#endif
