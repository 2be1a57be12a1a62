// C24: sessions over an asynchronous input.
#ifndef VARIANT
#define VARIANT 0
#endif
#include "hcli.h"
#if VARIANT&1
#include <cli/boostasioscheduler.h>
#include <cli/boostasiocliasyncsession.h>
typedef cli::BoostAsioScheduler Sched; typedef cli::BoostAsioCliAsyncSession Async;
#else
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasiocliasyncsession.h>
typedef cli::StandaloneAsioScheduler Sched; typedef cli::StandaloneAsioCliAsyncSession Async;
#endif
#ifndef BYTES
#define BYTES 5
#endif
#ifndef STEPS
#define STEPS 4
#endif
using namespace cli;
struct CoutCapture : std::streambuf { std::string s; std::streambuf* old; CoutCapture() { old=std::cout.rdbuf(this); } ~CoutCapture() override { std::cout.rdbuf(old); } std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p,(size_t)n); return n; } int overflow(int c) override { if (c!=-1) s+=(char)c; return c; } }; // the session prints on the standard output
struct World {
    CoutCapture out; std::unique_ptr<Cli> c; std::unique_ptr<Sched> s; std::unique_ptr<Async> a; std::vector<std::string> lines; int enters=0, exits=0, xs=0; std::shared_ptr<asio::mock::conn> in;
    World() { SetNoColor(); asio::mock::stdinConn()=std::make_shared<asio::mock::conn>(); in=asio::mock::stdinConn(); c.reset(new Cli(std::make_unique<Menu>("R"))); c->WrongCommandHandler([this](std::ostream&,const std::string& l){ lines.push_back(l); }); c->EnterAction([this](std::ostream&){ ++enters; }); c->ExitAction([this](std::ostream&){ ++exits; }); s.reset(new Sched()); a.reset(new Async(*s,*c)); a->ExitAction([this](std::ostream&){ ++xs; }); symx_assert(enters==1,"the enter action runs once, at the start"); symx_assert(out.s=="R> ","the prompt, once"); }
    void run() { try { while (s->AsioContext().ready()) s->PollOne(); } catch (...) { symx_assert(0,"an exception escapes to the event loop"); } }
};
static bool blank(const std::string& l) { bool b=true; for (char c : l) b &= (c==' ')|(c=='\t'); return b; }
static std::string prompts(size_t n) { std::string s; for (size_t i=0;i<n;++i) s+="R> "; return s; }
ENTRY(h_bytes) { // any text, cut anywhere
    World w; std::string s=symString(BYTES,"b"), chunk, cur; for (char c : s) symx_assume(c!='!' && c!='"' && c!='\'' && c!='\\' && c!='i' && c!='p');
    std::vector<std::string> want; size_t ends=0; int end=pick("end",3);
    for (char c : s) { if (c=='\n') { ++ends; if (!blank(cur)) want.push_back(cur); cur.clear(); } else cur+=c; }
    for (size_t i=0;i<s.size();++i) { chunk+=s[i]; if (i+1==s.size() || symx_choice("cut",2)) { w.in->deliver(chunk); chunk.clear(); if (symx_choice("run",2)) w.run(); } } w.run();
    symx_assert(w.lines.size()==want.size(),"each complete line is executed once"); if (w.lines.size()==want.size()) for (size_t i=0;i<want.size();++i) { observe(w.lines[i]); expectEq(w.lines[i],want[i],"the lines, in order"); }
    expectEq(w.out.s,prompts(1+ends),"one prompt for each line"); symx_assert(w.exits==0,"no exit yet"); if (!cur.empty()) symx_reach("incomplete line");
    if (end) { w.in->fail(end==1?asio::error_code(asio::error::eof):asio::error_code(asio::error::connection_reset)); w.run(); symx_assert(w.exits==1 && w.xs==1,"one exit at the end of the input"); symx_assert(w.lines.size()==want.size(),"an incomplete line is executed"); expectEq(w.out.s,prompts(1+ends),"no prompt after the end"); symx_assert(w.in->closes==1,"the input is released"); symx_reach("ended"); }
    w.a.reset(); w.run(); symx_assert(w.exits==(end?1:0) && w.in->closes==1,"nothing happens after the end of the session"); symx_reach("destroyed");
}
ENTRY(h_steps) { // any order of lines, pieces, ends and destruction
    World w; std::string cur; std::vector<std::string> want; int ends=0; bool over=false, gone=false, exited=false;
    for (int i=0;i<STEPS;++i) switch (pick("what",7)) {
        case 0: if (over) symx_prune(); w.in->deliver("ab"); cur+="ab"; break;
        case 1: if (over) symx_prune(); w.in->deliver("c\nd e\n"); if (!gone && !exited) { want.push_back(cur+"c"); want.push_back("d e"); ends+=2; } cur.clear(); break;
        case 2: if (over) symx_prune(); w.in->deliver("\n"); if (!gone && !exited) { if (!cur.empty()) want.push_back(cur); ++ends; } cur.clear(); break;
        case 3: if (over) symx_prune(); over=true; w.in->fail(asio::error::eof); symx_reach("end of input"); break;
        case 4: w.run(); break;
        case 5: { if (gone) symx_prune(); bool settled=pick("settled",2); if (settled) w.run(); gone=true; w.a.reset(); if (!settled) { w.run(); symx_assert(w.lines.size()<=want.size(),"lines"); symx_reach("destroyed with pending input"); return; } symx_reach("destroyed"); break; }
        default: if (over||exited||gone||!cur.empty()) symx_prune(); w.run(); w.in->deliver("exit\n"); w.run(); exited=true; symx_assert(w.exits==1 && w.xs==1,"exit"); symx_reach("exit"); expectEq(w.out.s,prompts(1+ends),"no prompt after exit"); w.a.reset(); gone=true; break;
    }
    w.run(); symx_assert(w.lines.size()==want.size(),"each complete line once"); if (w.lines.size()==want.size()) for (size_t i=0;i<want.size();++i) expectEq(w.lines[i],want[i],"the lines in order");
    expectEq(w.out.s,prompts(1+ends),"one prompt for each line"); symx_assert(w.exits<=1,"one exit"); symx_reach("end");
}
ENTRY(h_long) { // a line longer than one read
    World w; std::string l(500+pick("extra",3)*13,'a'), t=symString(1,"c"); symx_assume(t[0]!='\n'&&t[0]!=' '&&t[0]!='\t'&&t[0]!='!'&&t[0]!='"'&&t[0]!='\''&&t[0]!='\\'); l+=t; w.in->deliver(l+"\nb\n"); w.run(); symx_assert(w.lines.size()==2,"two lines"); if (w.lines.size()==2) { expectEq(w.lines[0],l,"the long line"); expectEq(w.lines[1],"b","the next one"); } symx_reach("long");
}
ENTRY(h_big) { // hundreds of lines in a piece, in pieces of any size; very long lines
    World w; std::string t, x=symString(1,"c"); symx_assume(x[0]!='\n'&&x[0]!=' '&&x[0]!='\t'&&x[0]!='!'&&x[0]!='"'&&x[0]!='\''&&x[0]!='\\'); std::vector<std::string> want; static const int sizes[]={1000,4096,32768,40000};
    int how=pick("how",6); if (how==0) for (int i=0;i<300;++i) { std::string l="w"+std::to_string(i); if (i==200) l+=x; want.push_back(l); t+=l+"\n"; } else if (how==5) { for (int i=0;i<260;++i) { want.push_back("b"); t+="b\n"; } want.push_back("b"+x); t+="b"+x+"\n"; } else { std::string l(sizes[how-1],'y'); l+=x; want={"a",l,"b"}; t="a\n"+l+"\nb\n"; }
    t+="rest"; static const int cuts[]={1000000,3,512,1023}; size_t c=cuts[how>=3&&how<5?pick("piece",2)*2:pick("piece",4)]; bool each=pick("each",2); for (size_t i=0;i<t.size();i+=c) { w.in->deliver(t.substr(i,c)); if (each) w.run(); } w.run();
    symx_assert(w.lines.size()==want.size(),"each complete line is executed once"); if (w.lines.size()==want.size()) for (size_t i=0;i<want.size();++i) expectEq(w.lines[i],want[i],"the lines, in order"); expectEq(w.out.s,prompts(1+want.size()),"one prompt for each line");
    w.in->fail(asio::error::eof); w.run(); symx_assert(w.lines.size()==want.size() && w.exits==1 && w.xs==1,"one exit, the incomplete line dropped"); symx_reach("big");
}
ENTRY(h_again) { // a session after another on the same Cli: nothing of the first one is left
    World w; std::string x=symString(2,"c"); for (char c : x) symx_assume(c!='\n'&&c!=' '&&c!='\t'&&c!='!'&&c!='"'&&c!='\''&&c!='\\'&&c!='i'&&c!='p'); bool m=pick("line",2); std::string first=m?"a\n":""; int end=pick("end",3); w.in->deliver(first+"par"); if (pick("run",2)) w.run();
    if (end==1) { w.run(); w.in->fail(asio::error::eof); w.run(); symx_assert(w.exits==1 && w.xs==1,"one exit"); } else if (end==2) w.run();
    w.a.reset(); w.run(); size_t n=w.lines.size(); symx_assert(n<=(size_t)m,"lines of the first session"); std::shared_ptr<asio::mock::conn> old=w.in; symx_assert(old->closes==1,"the input is released");
    w.out.s.clear(); w.in=std::make_shared<asio::mock::conn>(); asio::mock::stdinConn()=w.in; w.a.reset(new Async(*w.s,*w.c)); int xs2=0; w.a->ExitAction([&](std::ostream&){ ++xs2; }); w.run(); symx_assert(w.enters==2,"the enter action runs for each session"); expectEq(w.out.s,"R> ","the prompt, once");
    w.in->deliver(x.substr(0,1)); w.run(); w.in->deliver(x.substr(1)+"\nrest"); w.run(); symx_assert(w.lines.size()==n+1,"the line of the second session"); if (w.lines.size()==n+1) expectEq(w.lines[n],x,"the line of the second session"); expectEq(w.out.s,"R> R> ","the prompts of the second session"); observe(w.out.s);
    w.in->fail(asio::error::eof); w.run(); symx_assert(w.lines.size()==n+1 && xs2==1 && w.xs==(end==1) && w.exits==1+(end==1),"one exit for each session"); symx_reach(end==0?"destroyed":end==1?"ended":"run"); symx_reach("again");
}
