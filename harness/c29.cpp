// C29: the same lines do the same whatever front end they come through: direct calls, a file, an asynchronous input, keys, telnet.
#include "hsess.h"
#include "hkeys.h"
#include <cli/clifilesession.h>
#include "hnet.h"
#ifdef USE_BOOST
#include <cli/boostasiocliasyncsession.h>
typedef cli::BoostAsioCliAsyncSession Async;
#else
#include <cli/standaloneasiocliasyncsession.h>
typedef cli::StandaloneAsioCliAsyncSession Async;
#endif
#ifndef LLEN
#define LLEN 3
#endif
#ifndef LINES
#define LINES 3
#endif
using namespace cli; using namespace cli::detail;
struct CoutCapture : std::streambuf { std::string s; std::streambuf* old; CoutCapture() { old=std::cout.rdbuf(this); } ~CoutCapture() override { std::cout.rdbuf(old); } std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p,(size_t)n); return n; } int overflow(int c) override { if (c!=-1) s+=(char)c; return c; } };
struct Result { std::vector<std::string> calls; std::string out; bool exited=false; size_t prompt=0; };
static void collect(Result& r, Tree& t) { for (auto& c : t.calls) r.calls.push_back(c.text); }
typedef std::vector<std::string> Ls;
static std::string atEnd(const Result& d) { return d.exited?d.out:d.out+"bye\n"; } // the end of a file ends the session: exit actions
static Result direct(const Ls& ls, size_t hist) { // the reference: one call for each line
    Tree t; Cli c(t.menu()); t.watch(c); std::ostringstream o; Result r; { CliSession s(c,o,hist); s.ExitAction([&](std::ostream&){ r.exited=true; }); s.Enter(); s.Prompt(); for (auto& l : ls) { if (r.exited) break; s.Feed(l); s.Prompt(); } } collect(r,t); r.out=o.str(); return r;
}
static Result file(const Ls& ls) { Tree t; Cli c(t.menu()); t.watch(c); std::ostringstream o; std::string all; for (auto& l : ls) all+=l+"\n"; std::istringstream in(all); Result r; { CliFileSession s(c,in,o); s.ExitAction([&](std::ostream&){ r.exited=true; }); s.Start(); } collect(r,t); r.out=o.str(); return r; }
static Result async(const Ls& ls) { asio::mock::stdinConn()=std::make_shared<asio::mock::conn>(); auto in=asio::mock::stdinConn(); Tree t; CoutCapture o; Cli c(t.menu()); t.watch(c); AsioSched sch; Result r; { Async a(sch,c); a.ExitAction([&](std::ostream&){ r.exited=true; }); for (auto& l : ls) { if (r.exited) break; in->deliver(l+"\n"); while (sch.AsioContext().ready()) sch.PollOne(); } r.out=o.s; collect(r,t); } return r; }
static Result keys(const Ls& ls) { Tree t; Cli c(t.menu()); t.watch(c); std::ostringstream o; NowScheduler sch; Keys kb(sch); Result r; CliSession s(c,o,3); CommandProcessor<TelnetScreen> cp(s,kb); s.ExitAction([&](std::ostream&){ r.exited=true; }); s.Enter(); s.Prompt(); r.prompt=o.str().size(); for (auto& l : ls) { if (r.exited) break; for (char x : l) kb.key(KeyType::ascii,x); kb.key(KeyType::ret); } collect(r,t); r.out=o.str(); return r; }
static Result net(const Ls& ls, int ending) { Tree t; std::unique_ptr<Cli> c(new Cli(t.menu())); t.watch(*c); std::unique_ptr<AsioSched> sch(new AsioSched()); Result r; std::unique_ptr<::TelnetServer> srv(new ::TelnetServer(*c,*sch,5000,3)); srv->ExitAction([&](std::ostream&){ r.exited=true; }); auto run=[&]{ while (sch->AsioContext().ready() && !sch->Stopped()) sch->PollOne(); }; Conn k=Acceptor::last()->mockConnect(); run(); size_t from=k->out.size(); for (auto& l : ls) { if (r.exited) break; k->deliver(l+(ending?std::string("\r\0",2):"\r\n")); run(); } collect(r,t); std::string cmds; splitOutput(k->out.substr(from),r.out,cmds); srv.reset(); sch.reset(); return r; }
// what the user sees, line by line, without the echo of what was typed
static void same(const Result& a, const Result& b) { sameList(a.calls,b.calls,"the same commands with the same arguments"); symx_assert(a.exited==b.exited,"the session ends at the same line"); }
static const char* const lines[]={"a","m","..","b 12","t","!","zz","m a","c \"x y\"","exit","v a 'b' \\\"","help","","  "};
static const int NL=(int)(sizeof lines/sizeof *lines);
static Ls script(bool printing) { // LINES lines, the one of them arbitrary
    Ls ls; int at=pick("at",LINES); for (int i=0;i<LINES;++i) { if (i==at) { std::string l=symString(LLEN,"l"); if (printing) printable(l); else for (char c : l) symx_assume(c!='\n'); static const char* const heads[]={"","c ","m ","m/a"}; int h=pick("head",4); l=heads[h]+l; ls.push_back(l); } else ls.push_back(lines[pick("line",NL)]); } return ls;
}
ENTRY(h_lines) { // inputs made of lines: any byte
    SetNoColor(); Ls ls=script(false); Result d=direct(ls,1), f=file(ls), a=async(ls); d.calls.size(); for (auto& x : d.calls) observe(x); if (d.exited) { same(d,f); expectEq(f.out,atEnd(d),"the same output"); symx_reach("exited"); } else { sameList(d.calls,f.calls,"the same commands with the same arguments"); expectEq(f.out,atEnd(d),"the same output"); symx_assert(f.exited,"the end of the file ends the session"); symx_reach("goes on"); } same(d,a); expectEq(a.out,d.out,"the same output");
}
ENTRY(h_typed) { // line editors: any printable byte
    SetNoColor(); Ls ls=script(true); for (auto& l : ls) for (char c : l) symx_assume((unsigned char)c!=255 /* a telnet command */); int ending=pick("ending",2); Result d=direct(ls,3), k=keys(ls), n=net(ls,ending); for (auto& x : d.calls) observe(x); same(d,k); same(d,n); expectEq(n.out,crlf(k.out.substr(k.prompt)),"the same on the screen"); symx_reach(d.exited?"exited":"goes on");
    // and what is shown is the output of the lines plus their echo
    std::string want; Tree t; Cli c(t.menu()); t.watch(c); std::ostringstream o; CliSession s(c,o,3); bool gone=false; s.ExitAction([&](std::ostream&){ gone=true; }); s.Enter(); s.Prompt(); for (auto& l : ls) { if (gone) break; o << l << "\r\n"; s.Feed(l); s.Prompt(); } expectEq(k.out,o.str(),"the output and the echo");
}
ENTRY(h_color) { // the same with colours
    SetColor(); Ls ls; std::string x=symString(1,"x"); printable(x); symx_assume((unsigned char)x[0]!=255); ls.push_back(lines[pick("line",NL)]); ls.push_back("c "+x); Result d=direct(ls,3), k=keys(ls), n=net(ls,pick("ending",2)), f=file(ls); same(d,k); same(d,n); sameList(d.calls,f.calls,"the same commands"); expectEq(n.out,crlf(k.out.substr(k.prompt)),"the same on the screen"); expectEq(f.out,atEnd(d),"the same output"); symx_reach("color"); SetNoColor();
}
ENTRY(h_big) { // long lines and many of them
    SetNoColor(); std::string x=symString(1,"x"); printable(x); symx_assume((unsigned char)x[0]!=255); Ls ls; int how=pick("how",3); if (how==0) for (int i=0;i<120;++i) ls.push_back(std::string(lines[i%9])+(i==60?x:"")); else if (how==1) { ls.push_back("c "+std::string(pick("length",2)?5000:600,'y')+x); ls.push_back("a"); } else { std::string l="v"; for (int i=0;i<150;++i) l+=" p"+std::to_string(i); l+=x; ls.push_back(l); ls.push_back("a"); }
    Result d=direct(ls,3), d1=direct(ls,1), k=keys(ls), n=net(ls,0), f=file(ls), a=async(ls); same(d,k); same(d,n); sameList(d1.calls,f.calls,"the same commands"); same(d1,a); expectEq(n.out,crlf(k.out.substr(k.prompt)),"the same on the screen"); expectEq(f.out,atEnd(d1),"the same output"); expectEq(a.out,d1.out,"the same output"); symx_reach("big");
}
