// C21: enter and exit actions.
#include "hkeys.h"
#include <cli/clifilesession.h>
using namespace cli; using namespace cli::detail;
#ifndef OPS
#define OPS 4
#endif
struct StoreCount : HistoryStorage { int& n; explicit StoreCount(int& k) : n(k) {} void Store(const std::vector<std::string>&) override { ++n; } std::vector<std::string> Commands() const override { return {}; } void Clear() override {} };
struct Log { std::string t; std::ostream* want=nullptr; bool streams=true; void operator()(char c, std::ostream& o) { t+=c; if (&o!=want) streams=false; } };
static const bool on(const char* n) { return symx_choice(n,2); }
struct Setup { // which actions are set
    bool ge, gx, se, sx; std::string enter, exit; Log log; int stores=0; std::unique_ptr<Cli> c; CliSession* s=nullptr;
    Setup(bool sessionExit) : ge(on("ge")), gx(on("gx")), se(on("se")), sx(sessionExit && on("sx")) {
        SetNoColor(); auto root=std::make_unique<Menu>("R"); root->Insert("a",[](std::ostream& o){ o << "A"; }); root->Insert("q",[this](std::ostream& o){ o << "Q"; s->Exit(); }); root->Insert("t",[](std::ostream&){ throw std::runtime_error("T"); });
        auto sub=std::make_unique<Menu>("m"); sub->Insert("b",[](std::ostream& o){ o << "B"; }); root->Insert(std::move(sub));
        c.reset(new Cli(std::move(root),std::make_unique<StoreCount>(stores)));
        if (ge) c->EnterAction([this](std::ostream& o){ log('E',o); o << "e"; }); if (gx) c->ExitAction([this](std::ostream& o){ log('X',o); o << "x"; });
        c->WrongCommandHandler([](std::ostream& o,const std::string&){ o << "W"; });
        enter=std::string(ge?"E":"")+(se?"S":""); exit=std::string(sx?"Z":"")+(gx?"X":"");
    }
    void bind(CliSession& x, std::ostream& o) { s=&x; log.want=&o; if (se) x.EnterAction([this](std::ostream& o){ log('S',o); o << "s"; }); if (sx) x.ExitAction([this](std::ostream& o){ log('Z',o); o << "z"; }); }
};
static std::string lower(const std::string& s) { std::string r; for (char c : s) r+=(char)(c+32); return r; }
ENTRY(h_plain) { // any sequence of lines, exits and prompts
    Setup u(true); std::ostringstream out; CliSession s(*u.c,out); u.bind(s,out); std::string wantLog, prompt="R> "; bool gone=false;
    s.Enter(); wantLog=u.enter; symx_assert(u.log.t==wantLog,"the global enter action, then the one of the session");
    for (int k=0;k<OPS;++k) {
        std::string lx=lower(u.exit); 
        int op=symx_choice("op",8); out.str(""); std::string want;
        switch (op) {
            case 0: s.Feed("exit"); if (!gone) { want=lx; wantLog+=u.exit; } gone=true; break;
            case 1: s.Exit(); if (!gone) { want=lx; wantLog+=u.exit; } gone=true; break;
            case 2: s.Prompt(); if (!gone) { want=prompt; symx_reach("prompt"); } break;
            case 3: s.Feed("q"); want="Q"; if (prompt[0]!='R') { want="W"; } else { if (!gone) { want+=lx; wantLog+=u.exit; } gone=true; } break;
            case 4: { std::string x=symString(symx_choice("len",2),"line"); for (char c : x) symx_assume(c!='a'&&c!='q'&&c!='t'&&c!='m'&&c!='b'&&c!='R'&&!(c==' '||c=='\t'||c=='\n'||c=='"'||c=='\''||c=='\\')); s.Feed(x); want=x.empty()?"":"W"; break; }
            case 5: s.Feed(prompt[0]=='R'?"m":".."); prompt=prompt[0]=='R'?"m> ":"R> "; break;
            case 6: if (prompt[0]!='R') symx_prune(); s.Feed("t"); want="T\n"; break;
            default: if (prompt[0]!='R') symx_prune(); s.Feed("a"); want="A"; break;
        }
        observe(u.log.t); expectEq(out.str(),want,gone?"output after the exit":"output"); symx_assert(u.log.t==wantLog,"exit actions: the one of the session, then the global one, once"); symx_assert(u.stores==(gone?1:0),"the history is stored once, at the exit"); if (gone) symx_reach("exited");
    }
    symx_assert(u.log.streams,"actions get the stream of the session");
}
ENTRY(h_two) { // two sessions: the exit of one is not the exit of the other
    Setup u(true); std::ostringstream o1,o2; CliSession a(*u.c,o1), b(*u.c,o2); int n[2]={0,0}, z[2]={0,0}; bool gone[2]={false,false};
    u.c->ExitAction([&](std::ostream& o){ ++n[&o==&o2]; }); a.ExitAction([&](std::ostream& o){ if (&o==&o1) ++z[0]; }); b.ExitAction([&](std::ostream& o){ if (&o==&o2) ++z[1]; });
    for (int k=0;k<OPS;++k) { int i=symx_choice("session",2); CliSession& s=i?b:a; std::ostringstream& o=i?o2:o1; o.str(""); bool e=symx_choice("exit",2); if (e) { s.Feed("exit"); gone[i]=true; } else { s.Prompt(); expectEq(o.str(),gone[i]?"":"R> ","the prompt"); }
        for (int j=0;j<2;++j) symx_assert(n[j]==(gone[j]?1:0) && z[j]==n[j],"each session exits once, on its own stream"); }
    symx_reach("two");
}
ENTRY(h_keys) { // the line editor: end of input or the exit command, then any key
    Setup u(true); std::ostringstream out; NowScheduler sch; Keys kb(sch); CliSession s(*u.c,out); u.bind(s,out); CommandProcessor<TelnetScreen> cp(s,kb); s.Enter(); s.Prompt();
    symx_assert(u.log.t==u.enter,"the global enter action, then the one of the session"); bool gone=false; std::string typed;
    for (int k=0;k<OPS;++k) {
        size_t before=out.str().size(); int op=symx_choice("key",6); bool ex=gone;
        auto key=[&](KeyType t,char c=' ') { kb.key(t,c); }; auto ret=[&](const char* l) { if (!typed.empty()) symx_prune(); for (const char* p=l;*p;++p) key(KeyType::ascii,*p); before=out.str().size(); key(KeyType::ret); };
        std::string lx=lower(u.exit), want; bool check=true;
        if (op==0) { key(KeyType::eof); want=gone?"":lx; gone=true; }
        else if (op==1) { ret("exit"); want=std::string("\r\n")+(gone?"":lx); gone=true; }
        else if (op==2) { ret("q"); want=std::string("\r\n")+"Q"+(gone?"":lx); gone=true; }
        else if (op==3) { ret("a"); want=std::string("\r\n")+"A"+(gone?"":"R> "); }
        else if (op==4) { key(KeyType::ascii,'b'); typed+='b'; check=false; if (typed.size()>2) symx_prune(); }
        else { if (typed.empty()) symx_prune(); key(KeyType::ret); want=std::string("\r\n")+"W"+(gone?"":"R> "); typed=""; }
        std::string got=out.str().substr(before); std::string g; for (char c : got) if (c!='\r') g+=c; std::string w; for (char c : want) if (c!='\r') w+=c;
        if (check) { observe(g); expectEq(g,w,gone?"output after the exit":"output"); }
        symx_assert(u.log.t==u.enter+(gone?u.exit:""),"exit actions: the one of the session, then the global one, once"); symx_assert(u.stores==(gone?1:0),"the history is stored once, at the exit"); if (gone) symx_reach("exited"); (void)ex;
    }
    symx_assert(u.log.streams,"actions get the stream of the session");
}
ENTRY(h_file) { // a script
    Setup u(true); std::string text, want=lower(u.enter); bool gone=false; static const char* const L[]={"a","exit","q","","zz","t"}; static const char* const W[]={"A","","Q","","W","T\n"};
    int n=symx_choice("lines",OPS+1); for (int i=0;i<n;++i) { int l=symx_choice("line",6); text+=L[l]; bool last=i+1==n; if (!last || symx_choice("newline",2)) text+='\n'; else if (!*L[l]) symx_prune(); if (!gone) { want+="R> "; want+=W[l]; if (l==1||l==2) { gone=true; want+=lower(u.exit); } } }
    if (!gone) want+="R> "+lower(u.exit);
    std::istringstream in(text); std::ostringstream out; CliFileSession s(*u.c,in,out); u.bind(s,out); s.Start(); observe(out.str());
    expectEq(out.str(),want,"the output of the whole session"); symx_assert(u.log.t==u.enter+u.exit,"actions once each"); symx_assert(u.stores==1,"the history is stored once"); s.Exit(); s.Feed("exit"); s.Prompt(); expectEq(out.str(),want,"output after the exit"); symx_reach(gone?"exited":"end of input");
}
ENTRY(h_inside) { // exits and lines out of the actions themselves
    SetNoColor(); int stores=0; auto root=std::make_unique<Menu>("R"); int ran=0; root->Insert("a",[&](std::ostream&){ ++ran; }); Cli c(std::move(root),std::make_unique<StoreCount>(stores)); bool file=symx_choice("file",2); std::istringstream in("a\na\nexit\na\n"); std::ostringstream out; std::unique_ptr<CliSession> sp; if (file) sp.reset(new CliFileSession(c,in,out)); else sp.reset(new CliSession(c,out)); CliSession& s=*sp;
    int se=symx_choice("session enter",4), ge=symx_choice("global enter",4), sx=symx_choice("session exit",4), gx=symx_choice("global exit",4), n[4]={0,0,0,0}; std::string log;
    auto act=[&](int what, int k) { ++n[k]; log+="EexX"[k]; symx_assert(n[k]==1,"each action runs once"); if (what==1) s.Exit(); else if (what==2) s.Feed("exit"); else if (what==3) s.Feed("a"); };
    c.EnterAction([&](std::ostream&){ act(ge,0); }); s.EnterAction([&](std::ostream&){ act(se,1); }); s.ExitAction([&](std::ostream&){ act(sx,2); }); c.ExitAction([&](std::ostream&){ act(gx,3); });
    if (file) static_cast<CliFileSession&>(s).Start(); else { s.Enter(); s.Prompt(); s.Feed("a"); s.Prompt(); s.Feed("exit"); s.Prompt(); s.Exit(); }
    for (int k=0;k<4;++k) symx_assert(n[k]==1,"each action runs once"); symx_assert(stores==1,"the history is stored once"); size_t e=log.find('E'), e2=log.find('e'), x=log.find('x'), x2=log.find('X'); symx_assert(e<e2 && x<x2,"the actions in their order");
    bool early=ge==1||ge==2||se==1||se==2; size_t prompts=0; for (char ch : out.str()) if (ch=='>') ++prompts; symx_assert(prompts==(early?0u:file?3u:2u),"no prompt after the exit"); if (early && file) symx_assert(ran==(ge==3)+(se==3)+(sx==3)+(gx==3),"no line is read after the exit"); symx_reach(early?"early":"inside");
}
ENTRY(h_late) { // actions set and replaced at any time: after the entry, between the lines, after the exit
    SetNoColor(); int stores=0; auto root=std::make_unique<Menu>("R"); std::string log, want; CliSession* sp=nullptr; root->Insert("a",[&](std::ostream&){ log+='a'; }); Cli c(std::move(root),std::make_unique<StoreCount>(stores)); std::ostringstream out; CliSession s(c,out); sp=&s;
    char ge=0, se=0, gx=0, sx=0, next='0'; bool gone=false; auto act=[&](char id, bool again) { return [&log,&sp,id,again](std::ostream&){ log+=id; if (again) sp->Exit(); }; };
    for (int k=0;k<OPS+1;++k) { ++next;
        switch (pick("op",9)) {
            case 0: c.EnterAction(act(next,false)); ge=next; break;
            case 1: s.EnterAction(act(next,false)); se=next; break;
            case 2: { bool again=pick("again",2); c.ExitAction(act(next,again)); gx=next; if (gone) symx_reach("late"); break; }
            case 3: { bool again=pick("again",2); s.ExitAction(act(next,again)); sx=next; if (gone) symx_reach("late"); break; }
            case 4: s.Enter(); if (ge) want+=ge; if (se) want+=se; symx_reach("enter"); break;
            case 5: s.Feed("a"); want+='a'; break;
            case 6: switch (pick("which",4)) { case 0: c.ExitAction(nullptr); gx=0; break; case 1: s.ExitAction(nullptr); sx=0; break; case 2: c.EnterAction(nullptr); ge=0; break; default: s.EnterAction(nullptr); se=0; } break;
            case 7: out.str(""); s.Prompt(); expectEq(out.str(),gone?"":"R> ","the prompt"); break;
            default: if (pick("how",2)) s.Exit(); else s.Feed("exit"); if (!gone) { if (sx) want+=sx; if (gx) want+=gx; gone=true; } symx_reach("exit"); }
        symx_assert(log==want,"the actions in force at the entry and at the exit, once"); symx_assert(stores==(gone?1:0),"the history is stored once, at the exit");
    }
}
