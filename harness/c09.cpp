// C09: recalling past lines with up and down.
#include "hkeys.h"
#include "hhist.h"
#include <cli/detail/history.h>
using namespace cli; using namespace cli::detail;
#ifndef OPS2
#define OPS2 5
#endif
#ifndef OPS
#define OPS 5
#endif
#ifndef KOPS
#define KOPS 5
#endif
ENTRY(h_session) { // enter / up / down with arbitrary one byte lines (any of them may be equal), edits before each up
    size_t size=symx_concretize(symx_choice("size",4)); auto root=std::make_unique<Menu>("R"); Cli c(std::move(root)); c.WrongCommandHandler([](std::ostream&,const std::string&){});
    std::ostringstream out; CliSession s(c,out,size); HistModel m(size); std::string cur;
    for (int k=0;k<OPS;++k) {
        int op=symx_choice("op",4);
        if (op==0) { cur=symLine(1,"line"); s.Feed(cur); m.enter(cur); cur=""; symx_reach("enter"); }
        else if (op==3) { std::string got=s.NextCmd(), want=m.down(); observe(got); expectEq(got,want,"down recalls another line"); cur=want; symx_reach("down"); }
        else { if (op==2) cur=symLine(1,"edit"); std::string got=s.PreviousCmd(cur), want=m.up(cur); observe(got); expectEq(got,want,"up recalls another line"); cur=want; symx_reach("up"); }
    }
}
ENTRY(h_raw) { // the history object itself, preloaded, arbitrary (also empty) lines
    size_t size=symx_concretize(symx_choice("size",4)); History h(size); HistModel m(size); int nl=symx_choice("loaded",4); std::vector<std::string> l;
    for (int i=0;i<nl;++i) { l.push_back(symString(1,"old")); m.load(l.back()); } h.LoadCommands(l);
    for (int k=0;k+1<OPS;++k) {
        int op=symx_choice("op",3);
        if (op==0) { std::string x=symString(symx_choice("len",2),"line"); h.NewCommand(x); m.enter(x); }
        else if (op==1) { std::string x=symString(1,"edit"); std::string got=h.Previous(x), want=m.up(x); observe(got); expectEq(got,want,"up recalls another line"); symx_reach("up"); }
        else { std::string got=h.Next(), want=m.down(); observe(got); expectEq(got,want,"down recalls another line"); symx_reach("down"); }
    }
}
ENTRY(h_keys) { // the keys: what is shown is the recalled line, what is entered is what is shown
    size_t size=1+symx_choice("size",3); KeyWorld w(std::make_unique<Menu>("R"),size); HistModel m(size); std::string cur;
    for (int k=0;k<KOPS;++k) {
        int op=symx_choice("op",5);
        if (op==0) { std::string x=symLine(1,"c"); printable(x); symx_assume(x[0]!=0x78 && x[0]!=0x70 && x[0]!=0x79); // not exit, help, history
            w.key(KeyType::ascii,x[0]); cur+=x; }
        else if (op==1) { w.key(KeyType::up); cur=m.up(cur); symx_reach("up"); }
        else if (op==2) { w.key(KeyType::down); cur=m.down(); symx_reach("down"); }
        else if (op==3) { if (cur.empty()) symx_prune(); w.key(KeyType::backspace); cur.pop_back(); }
        else { size_t n=w.entered.size(); w.key(KeyType::ret); if (cur.empty()) symx_assert(w.entered.size()==n,"an empty line was executed"); else { symx_assert(w.entered.size()==n+1,"the line is executed once"); if (w.entered.size()==n+1) expectEq(w.entered[n],cur,"the executed line is the one shown"); m.enter(cur); symx_reach("enter"); } cur=""; }
        std::string row=w.scr.rows[w.scr.r], want="R> "+cur; size_t n=std::max(row.size(),want.size()); row.resize(n,' '); want.resize(n,' '); observe(row);
        expectEq(row,want,"the line on the screen"); symx_assert(w.scr.c==3+cur.size(),"the cursor column");
    }
}
ENTRY(h_big) { // large histories
    static const int sizes[]={4,15,16,17,100,127,128,255,256,257,300}; int size=sizes[pick("size",11)]; int n=size+pick("lines",4)*(size/3)-1; bool loaded=pick("loaded",2);
    History h(size); HistModel m(size); if (loaded) { std::vector<std::string> l; int k=size/2+pick("old",2)*size; for (int i=0;i<k;++i) { l.push_back("old"+std::to_string(i)); m.load(l.back()); } h.LoadCommands(l); }
    for (int i=0;i<n;++i) { std::string l="line"+std::to_string(i/2*2+(i%7==0)); if (i==n/2) l=symLine(1,"line"); h.NewCommand(l); m.enter(l); } // some consecutive ones are equal
    auto up=[&](const std::string& e, int k) { for (int i=0;i<k;++i) { std::string x=i==0?e:m.past[m.idx].text; std::string a=h.Previous(x), b=m.up(x); expectEq(a,b,"up recalls another line"); symx_reach("up"); } };
    auto down=[&](int k) { for (int i=0;i<k;++i) { std::string a=h.Next(), b=m.down(); expectEq(a,b,"down recalls another line"); symx_reach("down"); } };
    int steps[]={1,size/2,size-1,size,size+2}; up("typing",steps[pick("up",5)]); down(pick("down",2)?steps[pick("down2",5)]:1); up(m.past[m.idx].text,2);
    std::string e=symLine(1,"last"); h.NewCommand(e); m.enter(e); up("",3); down(5);
}
ENTRY(h_two) { // two sessions of the same Cli: each one recalls its own lines
    size_t size[2]={(size_t)pick("size",3)+1,2}; Cli c(std::make_unique<Menu>("R")); c.WrongCommandHandler([](std::ostream&,const std::string&){}); std::ostringstream out; CliSession s0(c,out,size[0]), s1(c,out,size[1]); CliSession* s[2]={&s0,&s1}; HistModel m[2]={HistModel(size[0]),HistModel(size[1])}; std::string cur[2];
    for (int k=0;k<OPS2;++k) {
        int i=pick("session",2), op=pick("op",3);
        if (op==0) { cur[i]=symLine(1,"line"); s[i]->Feed(cur[i]); m[i].enter(cur[i]); cur[i]=""; symx_reach("enter"); }
        else if (op==2) { std::string got=s[i]->NextCmd(), want=m[i].down(); observe(got); expectEq(got,want,"down recalls another line"); cur[i]=want; symx_reach("down"); }
        else { std::string got=s[i]->PreviousCmd(cur[i]), want=m[i].up(cur[i]); observe(got); expectEq(got,want,"up recalls another line"); cur[i]=want; symx_reach("up"); }
    }
}
