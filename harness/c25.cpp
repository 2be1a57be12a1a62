// C25: the help.
#include "hcli.h"
using namespace cli;
#ifndef OPS
#define OPS 2
#endif
#ifndef KINDS
#define KINDS 2
#endif
struct Ip { int v; }; inline std::istream& operator>>(std::istream& i, Ip& p) { return i >> p.v; }
namespace cli { template <> struct TypeDesc<Ip> { static const char* Name() { return "<ip address>"; } }; }
struct Opaque { int v; }; inline std::istream& operator>>(std::istream& i, Opaque& p) { return i >> p.v; }
static void fp(std::ostream&, int, std::string) {}
// one command of each kind: what its help line must be
static CmdHandler insert(Menu& m, int kind, const std::string& n, const std::string& d, bool given, std::string& text) {
    std::vector<std::string> pd; CmdHandler h; std::string sig; std::ostream* no=nullptr; (void)no;
    if (given) pd={"first","the second"};
    switch (kind) {
        case 0: h=m.Insert(n,[](std::ostream&){},d,pd); sig=""; break;
        case 1: h=m.Insert(n,[](std::ostream&,int,const std::string&,bool){},d,pd); sig=" <int> <string> <bool>"; break;
        case 2: h=m.Insert(n,[](std::ostream&,char,unsigned char,signed char,short){},d,pd); sig=" <char> <unsigned char> <signed char> <short>"; break;
        case 3: h=m.Insert(n,[](std::ostream&,unsigned short,unsigned,long,unsigned long){},d,pd); sig=" <unsigned short> <unsigned int> <long> <unsigned long>"; break;
        case 4: h=m.Insert(n,[](std::ostream&,long long,unsigned long long,float,double,long double){},d,pd); sig=" <long long> <unsigned long long> <float> <double> <long double>"; break;
        case 5: h=m.Insert(n,[](std::ostream&,const std::vector<std::string>&){},d,pd); sig=" <list of strings>"; break;
        case 6: h=m.Insert(n,[](std::ostream&,std::vector<std::string>){},d,pd); sig=" <list of strings>"; break;
        case 7: h=m.Insert(n,pd,[](std::ostream&,int,int){},d); sig=" <int> <int>"; break;
        case 8: h=m.Insert(n,fp,d,pd); sig=" <int> <string>"; break;
        case 9: h=m.Insert(n,[](std::ostream&,Ip,Opaque,const double&){},d,pd); sig=" <ip address>  <double>"; break;
        default: { auto s=std::make_unique<Menu>(n,d); s->Insert("hidden",[](std::ostream&){}); h=m.Insert(std::move(s)); text=" - "+n+"\n\t"+d+"\n"; return h; }
    }
    if (given) sig=" <first> <the second>";
    text=" - "+n+sig+"\n\t"+d+"\n"; return h;
}
enum { K=11 };
static const char* const builtins=" - help\n\tThis help message\n - exit\n\tQuit the session\n - history\n\tShow the history\n - ! <history entry index>\n\tExec a command by index in the history\n";
ENTRY(h_kinds) { // every kind of command, arbitrary names and descriptions
    auto root=std::make_unique<Menu>("R"); std::string want="Commands available:\n"; want+=builtins; int n=symx_choice("n",KINDS+1);
    for (int i=0;i<n;++i) { std::string t; insert(*root,symx_choice("kind",K),symString(symx_choice("nlen",2),"name")+"n",symString(1,"desc"),symx_choice("given",2),t); want+=t; symx_reach("listed"); }
    Cli c(std::move(root)); std::ostringstream out; CliSession s(c,out); if (symx_choice("feed",2)) s.Feed("help"); else s.Help(); observe(out.str()); expectEq(out.str(),want,"the help text");
}
struct Item { std::string text; bool enabled=true, removed=false; CmdHandler h; };
ENTRY(h_state) { // from every menu, after any sequence of enable, disable and remove
    SetNoColor(); auto root=std::make_unique<Menu>("R","the root"); Menu* r=root.get(); auto sub=std::make_unique<Menu>("m","the sub"); Menu* m=sub.get(); auto low=std::make_unique<Menu>("l"); Menu* l=low.get();
    Item it[8]; it[0].h=r->Insert("a",[](std::ostream&){},"A"); it[0].text=" - a\n\tA\n"; it[1].h=m->Insert("b",[](std::ostream&,int){},"B"); it[1].text=" - b <int>\n\tB\n"; it[2].h=m->Insert("b",[](std::ostream&){},""); it[2].text=" - b\n\t\n";
    it[3].h=l->Insert("c",[](std::ostream&,const std::vector<std::string>&){},"C"); it[3].text=" - c <list of strings>\n\tC\n"; it[4].h=m->Insert(std::move(low)); it[4].text=" - l\n\t(menu)\n"; it[5].h=m->Insert("z",[](std::ostream&){},"Z"); it[5].text=" - z\n\tZ\n";
    it[6].h=r->Insert(std::move(sub)); it[6].text=" - m\n\tthe sub\n"; it[7].h=r->Insert("e",[](std::ostream&){},"E"); it[7].text=" - e\n\tE\n";
    Cli c(std::move(root)); std::ostringstream out; CliSession s(c,out); int where=symx_choice("menu",3); if (where==1) s.Feed("m"); if (where==2) { s.Feed("m"); s.Feed("l"); }
    bool rootOff=symx_choice("root",2); if (rootOff) r->Disable();
    for (int k=0;k<OPS;++k) { int i=symx_choice("item",9); if (i==8) continue; int op=symx_choice("op",3); if (op==0) { it[i].h.Disable(); it[i].enabled=false; } else if (op==1) { it[i].h.Enable(); it[i].enabled=true; } else { if ((i==6 && where) || (i==4 && where==2)) symx_prune(); it[i].h.Remove(); it[i].removed=true; } }
    auto show=[&](int i) { return it[i].enabled && !it[i].removed ? it[i].text : std::string(); }; std::string want="Commands available:\n"; want+=builtins;
    if (where==0) { if (!rootOff) want+=show(0)+show(6)+show(7); }
    else if (where==1) { if (it[6].enabled) { want+=show(1)+show(2)+show(4)+show(5); if (!rootOff) want+=" - R\n\tthe root\n"; } }
    else if (it[4].enabled) { want+=show(3); if (it[6].enabled) want+=" - m\n\tthe sub\n"; }
    out.str(""); s.Feed("help"); observe(out.str()); expectEq(out.str(),want,"the help text"); symx_reach(where==0?"root":where==1?"sub":"lowest");
}
ENTRY(h_big) { // dozens of entries, long names and descriptions
    auto root=std::make_unique<Menu>("R"); std::string want="Commands available:\n"; want+=builtins; std::string x=symString(1,"x"), y=symString(1,"y"); static const int sizes[]={9,17,33,65}; int n=sizes[pick("n",4)], off=pick("off",3); std::vector<CmdHandler> h; std::vector<std::string> ts;
    for (int i=0;i<n;++i) { std::string t; std::string d(i%3==0?300:i%7,'d'); if (i==n/2) d=y; h.push_back(insert(*root,(i*5)%K,(i==n/2?x:"")+std::string(i%4==1?100:1,'n')+std::to_string(i%6),d,i%2,t)); ts.push_back(t); }
    for (int i=0;i<n;++i) { bool gone=off==0?false:off==1?i%3==1:i!=n/2; if (gone) { if (i%2) h[i].Disable(); else h[i].Remove(); } else want+=ts[i]; }
    Cli c(std::move(root)); std::ostringstream out; CliSession s(c,out); s.Feed("help"); expectEq(out.str(),want,"the help text"); symx_reach("big");
}
ENTRY(h_again) { // the help asked again: after a change, from another menu, by another session
    SetNoColor(); auto root=std::make_unique<Menu>("R","the root"); Menu* r=root.get(); std::string x=symString(1,"x"), y=symString(1,"y"); auto ha=r->Insert("a",[](std::ostream&){},x); auto sub=std::make_unique<Menu>("m","the sub"); Menu* m=sub.get(); auto hb=m->Insert("b",[](std::ostream&,int){},"B"); auto hm=r->Insert(std::move(sub)); std::string extra; bool a=true, b=true, sm=true;
    Cli c(std::move(root)); std::ostringstream out[2]; CliSession s0(c,out[0]), s1(c,out[1]); CliSession* s[2]={&s0,&s1}; int in[2]={0,0};
    auto ask=[&](int i) { std::string want="Commands available:\n"; want+=builtins; if (!in[i]) { if (a) want+=" - a\n\t"+x+"\n"; if (sm) want+=" - m\n\tthe sub\n"; want+=extra; } else if (sm) { if (b) want+=" - b <int>\n\tB\n"; want+=" - R\n\tthe root\n"; }
        for (auto& o : out) o.str(""); s[i]->Feed("help"); observe(out[i].str()); expectEq(out[i].str(),want,"the help text"); expectEq(out[1-i].str(),"","the other session"); symx_reach(i?"second":"first"); };
    for (int k=0;k<3;++k) { ask(pick("who",2)); if (k==2) break;
        switch (pick("change",8)) { case 0: ha.Disable(); a=false; break; case 1: ha.Enable(); a=true; break; case 2: if (in[0]||in[1]) symx_prune(); hm.Disable(); sm=false; break; case 3: hm.Enable(); sm=true; break; case 4: hb.Disable(); b=false; break;
            case 5: if (!extra.empty()) symx_prune(); r->Insert("z"+y,[](std::ostream&,char){},y); extra=" - z"+y+" <char>\n\t"+y+"\n"; break; case 6: if (!sm) symx_prune(); s0.Current(in[0]?r:m); in[0]=!in[0]; break; default: if (!sm) symx_prune(); s1.Feed(in[1]?"..":"m"); in[1]=!in[1]; break; } }
}
