// C27: sessions do not interfere: what a session shows and does while others are used is what it shows and does alone.
#include "hsess.h"
#include "hkeys.h"
#ifdef NETWORK
#include "hnet.h"
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef TLEN
#define TLEN 1
#endif
#ifndef LLEN
#define LLEN 2
#endif
using namespace cli; using namespace cli::detail;
struct Op { int kind; std::string text; };
#ifndef NETWORK
struct One { std::ostringstream out; CliSession s; NowScheduler sch; Keys kb; std::unique_ptr<CommandProcessor<TelnetScreen>> cp; bool exited=false; One(Cli& c, bool keys) : s(c,out,4), kb(sch) { if (keys) cp.reset(new CommandProcessor<TelnetScreen>(s,kb)); s.ExitAction([this](std::ostream&){ exited=true; }); s.Enter(); s.Prompt(); } };
struct World { Tree t; std::unique_ptr<Cli> c; std::unique_ptr<One> s[3]; World() { SetNoColor(); c.reset(new Cli(t.menu())); t.watch(*c); } void open(int k, bool keys) { s[k].reset(new One(*c,keys)); } };
// keys
static const int KINDS=10;
static void press(One& o, const Op& p) {
    auto line=[&](const char* l) { for (;*l;++l) o.kb.key(KeyType::ascii,*l); o.kb.key(KeyType::ret); };
    switch (p.kind) { case 0: o.kb.key(KeyType::ascii,p.text[0]); break; case 1: o.kb.key(KeyType::ret); break; case 2: o.kb.key(KeyType::ascii,'\t'); break; case 3: o.kb.key(KeyType::up); break; case 4: o.kb.key(KeyType::down); break;
        case 5: line("m"); break; case 6: o.kb.key(KeyType::backspace); break; case 7: line("t"); break; case 8: line("exit"); break; default: line("a"); break; }
}
static void feed(One& o, const Op& p) {
    auto comp=[&](const std::string& l) { for (auto& x : o.s.GetCompletions(l)) o.out << "[" << x << "]"; };
    switch (p.kind) { case 0: o.s.Feed(p.text); o.s.Prompt(); break; case 1: o.out << "^" << o.s.PreviousCmd(p.text); break; case 2: o.out << "v" << o.s.NextCmd(); break; case 3: comp(p.text); break; case 4: o.s.Feed("m"); break; case 5: o.s.Feed("a 1"); break; case 6: o.s.Feed("exit"); break; default: o.s.Feed("help"); break; }
}
static void together(bool keys) {
    World w; std::vector<Op> ops[2]; int n[2]={0,0}; bool gone[2]={false,false}; w.open(0,keys); w.open(1,keys); Tree* t=&w.t;
    int free=0; for (int i=0;i<STEPS;++i) { // some interleaving
        int who=pick("who",keys?2:3); if (who==2) { int k=pick("noise",2); if (k==0) { w.open(2,keys); w.s[2]->s.Feed("m"); } else { if (!w.s[2]) symx_prune(); w.s[2].reset(); } symx_reach("another one"); continue; }
        if (gone[who] || (who && i==0)) symx_prune(); int k=pick("kind",keys?KINDS+1:9); if (k==0 && LLEN==0) symx_prune(); if (k==(keys?KINDS:8)) { gone[who]=true; ops[who].push_back(Op{-1,w.s[who]->out.str()}); for (auto& x : t->of(&w.s[who]->out)) ops[who].back().text+=";"+x; w.s[who].reset(); symx_reach("destroyed"); continue; }
        Op p{k,""}; bool text=k==0 || (!keys && (k==1||k==3)); if (text) { if (free>=LLEN) symx_prune(); if (keys) { ++free; p.text=symString(1,"k"); printable(p.text); } else { free+=TLEN; p.text=symString(TLEN,"l"); } } ops[who].push_back(p); ++n[who]; keys?press(*w.s[who],p):feed(*w.s[who],p);
    }
    for (int who=0;who<2;++who) if (!gone[who]) for (int k : keys?std::vector<int>{2,9,3,1}:std::vector<int>{3,5,1,7}) { ops[who].push_back(Op{k,""}); keys?press(*w.s[who],ops[who].back()):feed(*w.s[who],ops[who].back()); } // and both go on
    for (int who=0;who<2;++who) { // each of them alone
        World a; a.open(0,keys); std::string end; for (auto& p : ops[who]) if (p.kind<0) end=p.text; else keys?press(*a.s[0],p):feed(*a.s[0],p);
        std::string alone=a.s[0]->out.str(); observe(alone); if (gone[who]) { for (auto& x : a.t.of(&a.s[0]->out)) alone+=";"+x; expectEq(end,alone,"a session shows and does what it would alone"); continue; }
        expectEq(w.s[who]->out.str(),alone,"a session shows what it would alone"); sameList(t->of(&w.s[who]->out),a.t.of(&a.s[0]->out),"a session does what it would alone"); symx_assert(w.s[who]->exited==a.s[0]->exited,"a session ends when it would alone"); if (a.s[0]->exited) symx_reach("exited");
    }
    symx_reach("together");
}
ENTRY(h_keys) { together(true); } // line editors
ENTRY(h_plain) { together(false); } // lines, history and completions, of any bytes
// a command of a session uses another one, which is in the middle of something
ENTRY(h_inside) {
    struct In { std::unique_ptr<Cli> c; std::unique_ptr<One> a, b; std::string sub; int kind; bool use; Tree t;
        int depth=0; explicit In(bool u, int k, const std::string& s) : sub(s), kind(k), use(u) { SetNoColor(); auto m=t.menu(); m->Insert("z",[this](std::ostream& o, const std::string& x){ o << "("; if (use && depth==0) { ++depth; feed(*b,Op{kind,sub}); --depth; } o << x << ")"; t.hit(o,"z"+x); }); c.reset(new Cli(std::move(m))); t.watch(*c); a.reset(new One(*c,false)); b.reset(new One(*c,false)); } };
    std::string x=symString(1,"x"), l=symString(2,"l"), before=symString(1,"b"); int kind=pick("kind",8), pre=pick("pre",3); int post=pick("post",4);
    auto go=[&](In& w, bool first, bool second) { auto& a=*w.a; auto& b=*w.b; if (second && pre) feed(b,Op{pre==1?4:0,before}); if (first) { if (pre==2) feed(a,Op{4,""}); feed(a,Op{0,(pre==2?"../R z ":"z ")+x}); a.s.Feed("z "+x); feed(a,Op{post,"a"}); a.s.Feed("a"); } else { feed(b,Op{kind,l}); feed(b,Op{kind,l}); } if (second) { feed(b,Op{post,"a"}); b.s.Feed("a"); } };
    In both(true,kind,l), onlyA(false,kind,l), onlyB(false,kind,l); bool two=false; 
    go(both,true,true); go(onlyA,true,false); size_t ran=0; for (auto& s : both.t.of(&both.a->out)) ran+=!s.empty() && s[0]=='z'; if (ran!=2) symx_prune(); two=true; go(onlyB,false,true); (void)two;
    expectEq(both.a->out.str(),onlyA.a->out.str(),"a session shows what it would alone"); sameList(both.t.of(&both.a->out),onlyA.t.of(&onlyA.a->out),"a session does what it would alone"); observe(both.a->out.str());
    expectEq(both.b->out.str(),onlyB.b->out.str(),"the other one too"); sameList(both.t.of(&both.b->out),onlyB.t.of(&onlyB.b->out),"the other one does what it would alone"); symx_reach("inside");
}
#else
struct World { Tree t; std::unique_ptr<Cli> c; std::unique_ptr<AsioSched> sch; std::unique_ptr<::TelnetServer> srv; Conn k[3];
    World() { SetNoColor(); c.reset(new Cli(t.menu())); t.watch(*c); sch.reset(new AsioSched()); srv.reset(new ::TelnetServer(*c,*sch,5000,4)); }
    ~World() { srv.reset(); sch.reset(); c.reset(); }
    void run() { while (sch->AsioContext().ready() && !sch->Stopped()) sch->PollOne(); }
    void open(int i) { k[i]=Acceptor::last()->mockConnect(); run(); } };
static const int KINDS=8;
static void send(World& w, int i, const Op& p) {
    static const char* const texts[]={"","a\r\n","m\r\n","\t","\x1b[A","\x1b","\xff","exit\r\n"};
    w.k[i]->deliver(p.kind?std::string(texts[p.kind]):p.text);
}
ENTRY(h_net) { // telnet clients, any pieces of input in any order, packets handled at once or later
    World w; std::vector<Op> ops[2]; w.open(0); w.open(1); int free=0; bool lost[2]={false,false}, late=pick("late",2);
    for (int i=0;i<STEPS;++i) {
        int who=pick("who",3); if (who==2) { int k=pick("noise",4); if (k==0) { if (w.k[2]) symx_prune(); w.open(2); } else if (k==1) { if (!w.k[2] || w.k[2]->peerGone) symx_prune(); w.k[2]->deliver("c x\r\nm\r"); } else if (k==2) { if (!w.k[2] || w.k[2]->peerGone) symx_prune(); w.k[2]->fail(asio::error::eof); } else { if (lost[1]) symx_prune(); lost[1]=true; w.run(); w.k[1]->fail(asio::error::eof); symx_reach("lost"); } symx_reach("another one"); continue; }
        if (lost[who] || (who && i==0)) symx_prune(); int k=pick("kind",KINDS); Op p{k,""}; if (k==0) { if (free>=LLEN) symx_prune(); ++free; p.text=symString(1,"k"); } ops[who].push_back(p); send(w,who,p); if (!late) w.run();
    }
    w.run(); for (int who=0;who<2;++who) if (!lost[who]) for (int k : {1,4,1}) { ops[who].push_back(Op{k,""}); send(w,who,ops[who].back()); w.run(); } // and both go on
    for (int who=0;who<2;++who) { World a; a.open(0); for (auto& p : ops[who]) send(a,0,p); a.run(); observe(a.k[0]->out); symx_assert(lost[who] || (w.k[who]->closes>0)==(a.k[0]->closes>0),"a connection ends when it would alone"); expectEq(w.k[who]->out,a.k[0]->out,"a client sees what it would see alone"); }
    symx_reach("together");
}
#endif
