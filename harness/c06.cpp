// C06: enabling, disabling and removing commands and menus at run time.
#include "hcli.h"
using namespace cli;
#ifndef OPS2
#define OPS2 2
#endif
#ifndef OPS
#define OPS 3
#endif
struct Node { bool isMenu=false, enabled=true, removed=false; std::string name; int id=0; Node* parent=nullptr; std::vector<Node*> kids; CmdHandler h; };
static std::vector<int> ran;
struct Effect { bool found=false; int cmd=-1; Node* to=nullptr; };
typedef std::vector<std::string> Toks;
static Effect inside(Node& m, const Toks& t, size_t i);
static Effect enter(Node& m, const Toks& t, size_t i) { if (i+1==t.size()) { Effect e; e.found=true; e.to=&m; return e; } Effect e=inside(m,t,i+1); return e; }
static Effect inside(Node& m, const Toks& t, size_t i) {
    if (!m.enabled) return {};
    for (Node* k : m.kids) {
        if (k->removed || !k->enabled || !sameBytes(k->name,t[i])) continue;
        if (k->isMenu) { Effect e=enter(*k,t,i); if (e.found) return e; }
        else if (i+1==t.size()) { Effect e; e.found=true; e.cmd=k->id; return e; }
    }
    if (m.parent && m.parent->enabled && (t[i]==".." || sameBytes(m.parent->name,t[i]))) return enter(*m.parent,t,i);
    return {};
}
static bool plainByte(char c) { return c!=' '&&c!='\t'&&c!='\n'&&c!='!'&&c!='"'&&c!='\''&&c!='\\'; }
struct World {
    Node root,a,a2,m,b; Menu *rm,*mm; std::unique_ptr<Cli> c; std::ostringstream out; std::unique_ptr<CliSession> s; int wrong=0; Node* cur;
    World() {
        ran.clear();
        auto u=std::make_unique<Menu>("R","(menu)","P0"); rm=u.get(); root.isMenu=true; root.name="R"; cur=&root;
        auto cmd=[](Node& n, const char* nm, int id, Node& p, Menu* pm) { n.name=nm; n.id=id; n.parent=&p; p.kids.push_back(&n); n.h=pm->Insert(nm,[id](std::ostream&){ ran.push_back(id); }); };
        cmd(a,"a",1,root,rm);
        auto mu=std::make_unique<Menu>("m","(menu)","P1"); mm=mu.get(); m.isMenu=true; m.name="m"; m.id=3; m.parent=&root; root.kids.push_back(&m); m.h=rm->Insert(std::move(mu));
        cmd(a2,"a",2,root,rm); // a second command of the same name: takes over when the first is disabled or removed
        cmd(b,"b",4,m,mm);
        c.reset(new Cli(std::move(u))); c->WrongCommandHandler([this](std::ostream&,const std::string&){ ++wrong; });
        s.reset(new CliSession(*c,out));
    }
    void line(const Toks& t) {
        std::string l; for (auto& w : t) { if (!l.empty()) l+=' '; l+=w; }
        ran.clear(); wrong=0; out.str("");
        s->Feed(l); s->Prompt();
        Effect e=inside(*cur,t,0);
        if (e.to) cur=e.to;
        symx_observe_u64(ran.size()); symx_observe_u64(wrong); observe(out.str());
        symx_assert(wrong==(e.found?0:1),"only enabled and present entries are found");
        if (e.cmd>=0) { symx_assert(ran.size()==1,"exactly one command runs"); if (ran.size()==1) symx_assert(ran[0]==e.cmd,"another command ran"); symx_reach("command"); }
        else { symx_assert(ran.empty(),"a disabled or removed command ran"); symx_reach(e.found?"moved":"wrong"); }
        expectEq(out.str(), cur==&root?"P0> ":"P1> ","prompt of the current menu");
    }
    void op(Node& n, int what) { // 0 disable 1 enable 2 remove
        if (what==0) { n.h.Disable(); if (!n.removed) n.enabled=false; }
        else if (what==1) { n.h.Enable(); if (!n.removed) n.enabled=true; }
        else { n.h.Remove(); n.removed=true; }
    }
};
static Toks symToks(int max) { Toks t; int nt=1+symx_choice("tokens",max); for (int i=0;i<nt;++i) { std::string w=symString(1+symx_choice("toklen",2),"tok"); for (char c : w) symx_assume(plainByte(c)); t.push_back(w); } return t; }
static void history(bool inMenu) {
    World w; Node* all[]={&w.a,&w.a2,&w.m,&w.b};
    if (inMenu) w.line({"m"});
    for (int k=0;k<OPS;++k) {
        int o=symx_choice("op",inMenu?9:13);
        if (o==12) w.line({symx_choice("go",2)?"m":".."});
        else if (inMenu) { Node* x=o/3==0?&w.a:o/3==1?&w.m:&w.b; if (x==&w.m && o%3==2) symx_prune(); w.op(*x,o%3); } // removing the menu the session is in: h_current_removed
        else { Node& x=*all[o/3]; if (&x==&w.m && o%3==2 && w.cur==&w.m) symx_prune(); w.op(x,o%3); }
    }
    w.line(symToks(2));
}
ENTRY(h_history) { history(false); }
ENTRY(h_history_inside) { history(true); }
ENTRY(h_stale_handles) { // handles outlive commands, menus and the whole cli; empty handles do nothing
    CmdHandler none, ha, hm, hb;
    { World w; ha=w.a.h; hm=w.m.h; hb=w.b.h; int k=symx_choice("op",6);
      if (k==0) ha.Remove(); if (k==1) hm.Remove(); if (k==2) { hb.Remove(); hb.Remove(); } if (k==3) { hm.Remove(); hb.Enable(); hb.Remove(); } if (k==4) { ha.Disable(); CmdHandler c(ha); c.Enable(); } if (k==5) { none.Enable(); none.Remove(); }
      w.a.removed=k==0; w.m.removed=k==1||k==3; w.b.removed=k==2||k==3;
      w.line(symToks(2)); }
    int j=symx_choice("late",3); CmdHandler* hs[]={&ha,&hm,&hb}; hs[j]->Disable(); hs[j]->Enable(); hs[j]->Remove();
    symx_reach("late calls");
}
ENTRY(h_from_handler) { // a handler that removes or disables its own command, its own menu or others while it runs
    ran.clear(); int wrong=0; CmdHandler hk, hm, ho, hx; bool freeform=symx_choice("freeform",2); int what=symx_choice("what",8); std::string seen;
    auto act=[&,what]{ switch (what) { case 0: hk.Remove(); break; case 1: hk.Disable(); break; case 2: hm.Remove(); break; case 3: hm.Disable(); break; case 4: ho.Remove(); break; case 5: ho.Disable(); break; case 6: hk.Remove(); ho.Remove(); hm.Remove(); break; default: hx.Remove(); break; } };
    auto root=std::make_unique<Menu>("R","(menu)","P0"); auto mu=std::make_unique<Menu>("m","(menu)","P1");
    std::string big(40,'k'); // lives in the handler's closure
    ho=mu->Insert("o",[](std::ostream&){ ran.push_back(2); });
    if (freeform) hk=mu->Insert("k",[big,act,&seen](std::ostream& o,const std::vector<std::string>& a){ act(); seen=big; ran.push_back(1); for (auto& x : a) o << x; });
    else hk=mu->Insert("k",[big,act,&seen](std::ostream& o,const std::string& a){ act(); seen=big; ran.push_back(1); o << a; });
    mu->Insert("z",[](std::ostream&){ ran.push_back(3); });
    hx=root->Insert("x",[](std::ostream&){ ran.push_back(4); });
    hm=root->Insert(std::move(mu));
    Cli c(std::move(root)); c.WrongCommandHandler([&](std::ostream&,const std::string&){ ++wrong; });
    std::ostringstream out; CliSession s(c,out); std::string arg=symString(1,"arg"); symx_assume(plainByte(arg[0]));
    s.Feed("m k "+arg); s.Prompt();
    expectEq(out.str(),arg+"P0> ","output of the handler"); expectEq(seen,big,"the handler's state was destroyed while it ran");
    symx_assert(ran.size()==1 && wrong==0,"the handler runs once");
    bool mAlive = what!=2 && what!=3 && what!=6, kAlive = mAlive && what!=0 && what!=1, oAlive = mAlive && what!=4 && what!=5;
    struct P { const char* line; int id; bool alive; } probes[]={{"m k q",1,kAlive},{"m o",2,oAlive},{"m z",3,mAlive},{"x",4,what!=7}};
    int p=symx_choice("probe",4); ran.clear(); wrong=0; s.Feed(probes[p].line);
    symx_assert(wrong==(probes[p].alive?0:1),"an entry is present iff it was neither removed nor disabled"); symx_assert(ran.size()==(probes[p].alive?1:0),"execution after the change");
    if (ran.size()==1) symx_assert(ran[0]==probes[p].id,"another command ran");
    symx_observe_u64(ran.size()); symx_reach(probes[p].alive?"still there":"gone");
}
ENTRY(h_current_removed) { // the menu in which a session is gets removed: the session must stay usable
    World w; w.line({"m"}); w.m.h.Remove(); w.out.str("");
    w.s->Prompt(); w.s->Feed("b"); w.s->Feed(".."); symx_reach("survived");
}
ENTRY(h_many) { // many entries, several of each name, some added after others were removed
    ran.clear(); int wrong=0; struct It { CmdHandler h; std::string name; bool on=true, gone=false; bool menu=false; int id; }; std::vector<It> its; its.reserve(40);
    auto u=std::make_unique<Menu>("R","(menu)","P0"); Menu* r=u.get(); Cli c(std::move(u)); c.WrongCommandHandler([&](std::ostream&,const std::string&){ ++wrong; }); std::ostringstream out; CliSession s(c,out);
    auto add=[&](const std::string& nm, bool menu) { int id=(int)its.size(); It it; it.name=nm; it.menu=menu; it.id=id; if (menu) { auto m=std::make_unique<Menu>(nm,"(menu)","S"); m->Insert("q",[id](std::ostream&){ ran.push_back(id); }); it.h=r->Insert(std::move(m)); } else it.h=r->Insert(nm,[id](std::ostream&){ ran.push_back(id); }); its.push_back(it); };
    int n=pick("entries",2)?18:9; for (int i=0;i<n;++i) add(std::string("k")+char('0'+i%3),i%5==4);
    for (int k=0;k<2;++k) { It& x=its[pick("entry",n)]; switch (pick("op",4)) { case 0: x.h.Remove(); x.gone=true; break; case 1: x.h.Disable(); x.on=false; break; case 2: x.h.Remove(); x.gone=true; add("k1",false); break; case 3: { CmdHandler h=x.h; x.h=CmdHandler(); h.Disable(); h.Enable(); h.Remove(); h.Remove(); h.Enable(); x.gone=true; break; } } }
    std::string w="k"+symString(1,"tok"); symx_assume(plainByte(w[1])); bool path=pick("path",2);
    s.Feed(path?w+" q":w); s.Prompt(); int want=-1; bool found=false;
    for (auto& x : its) if (!found && x.on && !x.gone && x.name==w && x.menu==path) { found=true; want=x.id; }
    if (!path) for (auto& x : its) if (x.on && !x.gone && x.name==w) { if (x.menu) { want=-1; found=true; symx_assert(ran.empty(),"the menu comes first"); expectEq(out.str(),"S> ","prompt of the menu"); symx_reach("moved"); return; } break; }
    symx_observe_u64(ran.size()); symx_assert(wrong==(found?0:1),"only enabled and present entries are found"); symx_assert(ran.size()==(found?1:0),"exactly one command runs"); if (found && ran.size()==1) symx_assert(ran[0]==want,"another command ran"); expectEq(out.str(),"P0> ","prompt of the current menu"); symx_reach(found?"command":"wrong");
}
ENTRY(h_two) { // two sessions in different menus see the same changes, through any copy of a handle
    World w; std::ostringstream out2; CliSession s2(*w.c,out2); Node* here=&w.root; Node* all[]={&w.a,&w.a2,&w.m,&w.b}; bool sub=pick("second in",2); if (sub) { s2.Feed("m"); here=&w.m; } if (pick("first in",2)) w.line({"m"});
    for (int k=0;k<OPS2;++k) { Node& x=*all[pick("entry",4)]; int o=pick("op",k?3:6); if (&x==&w.m && o==2 && (w.cur==&w.m || here==&w.m)) symx_prune();
        if (o<3) w.op(x,o);
        else { CmdHandler h; if (o==3) { h=x.h; } else if (o==4) { CmdHandler t(x.h); h=std::move(t); } else { CmdHandler t(x.h); std::swap(h,t); } h.Disable(); if (!x.removed) x.enabled=false; if (o==5) { x.h.Enable(); if (!x.removed) x.enabled=true; } } }
    for (int k=0;k<2;++k) { // the line in one session, and in the other
        static const char* const words[]={"a","b","m","..","m b","a"}; int l=k?pick("line",6):pick("line",4)+(k==0); Toks t; if (l==4) t={"m","b"}; else if (l==5) { t={symString(1,"tok")}; symx_assume(plainByte(t[0][0])); } else t={words[l]};
        if (k==0) { w.line(t); continue; }
        std::string line; for (auto& x : t) { if (!line.empty()) line+=' '; line+=x; } ran.clear(); w.wrong=0; out2.str(""); s2.Feed(line); s2.Prompt(); Effect e=inside(*here,t,0); if (e.to) here=e.to;
        symx_observe_u64(ran.size()); symx_observe_u64(w.wrong); symx_assert(w.wrong==(e.found?0:1),"only enabled and present entries are found"); symx_assert(ran.size()==(e.cmd>=0?1:0),"execution in the other session"); if (e.cmd>=0 && ran.size()==1) symx_assert(ran[0]==e.cmd,"another command ran"); expectEq(out2.str(), here==&w.root?"P0> ":"P1> ","prompt of the current menu of the other session"); symx_reach(e.cmd>=0?"command":e.found?"moved":"wrong");
    }
}
