// C05: navigation among menus.
#include "hcli.h"
using namespace cli;
#ifndef TOKS
#define TOKS 2
#endif
#ifndef LINES
#define LINES 2
#endif
struct Node { Menu* menu=nullptr; bool isMenu; std::string name; int id; Node* parent=nullptr; std::vector<std::unique_ptr<Node>> kids; };
static std::vector<int> ran;
static std::string promptOf(int id) { return "P"+std::to_string(id); }
static Node* addCmd(Node& m, const std::string& name, int id) { auto n=std::make_unique<Node>(); n->isMenu=false; n->name=name; n->id=id; n->parent=&m; m.menu->Insert(name,[id](std::ostream&){ ran.push_back(id); }); Node* r=n.get(); m.kids.push_back(std::move(n)); return r; }
static Node* addMenu(Node& m, const std::string& name, int id) { auto n=std::make_unique<Node>(); n->isMenu=true; n->name=name; n->id=id; n->parent=&m; auto u=std::make_unique<Menu>(name,"(menu)",promptOf(id)); n->menu=u.get(); m.menu->Insert(std::move(u)); Node* r=n.get(); m.kids.push_back(std::move(n)); return r; }
// reference: what a line does, starting from a menu
struct Effect { bool found=false; int cmd=-1; Node* to=nullptr; };
typedef std::vector<std::string> Toks;
static Effect inside(Node& m, const Toks& t, size_t i);
static Effect enter(Node& m, const Toks& t, size_t i) { if (i+1==t.size()) { Effect e; e.found=true; e.to=&m; return e; } return inside(m,t,i+1); }
static Effect inside(Node& m, const Toks& t, size_t i) { // resolve t[i..] among the entries of m, then through its parent
    for (auto& k : m.kids) {
        if (!sameBytes(k->name,t[i])) continue;
        if (k->isMenu) { Effect e=enter(*k,t,i); if (e.found) return e; }
        else if (i+1==t.size()) { Effect e; e.found=true; e.cmd=k->id; return e; }
    }
    if (m.parent && (t[i]==".." || sameBytes(m.parent->name,t[i]))) return enter(*m.parent,t,i);
    return {};
}
static bool plainByte(char c) { return c!=' '&&c!='\t'&&c!='\n'&&c!='!'&&c!='"'&&c!='\''&&c!='\\'; }
static std::string name(bool sym, const char* d, const char* n) { if (!sym) return d; std::string r=symString(1,n); symx_assume(plainByte(r[0])); return r; }
static void go(bool sym, int lines, int maxToks) {
    ran.clear(); int wrong=0;
    Node root; root.isMenu=true; root.id=0; root.name=name(sym,"R","root");
    auto u=std::make_unique<Menu>(root.name,"(menu)",promptOf(0)); root.menu=u.get();
    addCmd(root,"a",10);
    Node* m=addMenu(root,name(sym,"m","m"),1); addCmd(*m,name(sym,"b","b"),11); Node* n=addMenu(*m,name(sym,"n","n"),2); addCmd(*n,name(sym,"c","c"),12); addCmd(*m,"a",14);
    Node* p=addMenu(root,name(sym,"p","p"),3); addCmd(*p,"d",13);
    Node* menus[]={&root,m,n,p};
    Cli c(std::move(u)); c.WrongCommandHandler([&](std::ostream&,const std::string&){ ++wrong; });
    std::ostringstream out; CliSession s(c,out);
    Node* cur=menus[symx_choice("start",4)]; s.Current(cur->menu);
    for (int l=0;l<lines;++l) {
        Toks t; int nt=1+symx_choice("tokens",maxToks); std::string line;
        for (int i=0;i<nt;++i) { int k=symx_choice("kind",2); std::string w; if (k==0) { w=symString(1,"tok"); symx_assume(plainByte(w[0])); } else { w=symString(2,"tok"); symx_assume(plainByte(w[0]) && plainByte(w[1])); } t.push_back(w); if (i) line+=' '; line+=w; }
        ran.clear(); wrong=0; out.str("");
        s.Feed(line); s.Prompt();
        Effect e=inside(*cur,t,0);
        if (e.found && e.to) cur=e.to;
        symx_observe_u64(ran.size()); symx_observe_u64(wrong); observe(out.str());
        symx_assert(wrong==(e.found?0:1),"wrong command handler called iff nothing matches");
        if (e.cmd>=0) { symx_assert(ran.size()==1,"exactly one command runs"); if (ran.size()==1) symx_assert(ran[0]==e.cmd,"another command ran"); symx_reach("command"); }
        else { symx_assert(ran.empty(),"a command ran though the line only moves or is wrong"); symx_reach(e.found?"moved":"wrong"); }
        expectEq(out.str(),promptOf(cur->id)+"> ","the prompt must be the one of the current menu");
    }
}
ENTRY(h_line) { go(false,1,TOKS+1); }        // one line from every menu, fixed distinct names
ENTRY(h_names) { go(true,1,TOKS); }           // one line from every menu, arbitrary (possibly equal) names
ENTRY(h_lines) { go(true,LINES,2); }          // several lines
ENTRY(h_deep) { // a deep chain of menus with similar names, down and up along it in one line or in several
    const int D=7; ran.clear(); int wrong=0; Node root; root.isMenu=true; root.id=0; root.name="r"; auto u=std::make_unique<Menu>("r","(menu)",promptOf(0)); root.menu=u.get(); addCmd(root,"c",100);
    std::vector<Node*> chain{&root}; for (int d=1;d<=D;++d) { Node* p=chain.back(); addMenu(*p,"side"+std::to_string(d),50+d); Node* n=addMenu(*p,d==4?"r":"m"+std::to_string(d),d); addCmd(*n,"c",100+d); addCmd(*n,"c"+std::to_string(d),200+d); chain.push_back(n); }
    Cli c(std::move(u)); c.WrongCommandHandler([&](std::ostream&,const std::string&){ ++wrong; }); std::ostringstream out; CliSession s(c,out);
    int start=pick("start",D+1); Node* cur=chain[start]; s.Current(cur->menu);
    int down=pick("down",D-start+1), up=pick("up",start+down+2); bool dots=pick("dots",2), split=pick("split",2); Toks t;
    for (int i=1;i<=down;++i) t.push_back(chain[start+i]->name);
    for (int i=1;i<=up;++i) t.push_back(dots || start+down-i<0 ? std::string("..") : chain[start+down-i]->name);
    int last=pick("last",3); std::string w=last==0?"":last==1?symString(1,"tok"):"c"+symString(1,"tok"); if (last) { symx_assume(plainByte(w.back())); t.push_back(w); }
    if (t.empty()) symx_prune();
    std::vector<Toks> lines; if (split) for (auto& x : t) lines.push_back({x}); else lines.push_back(t);
    for (auto& l : lines) {
        ran.clear(); wrong=0; out.str(""); std::string line; for (auto& x : l) { if (!line.empty()) line+=' '; line+=x; }
        s.Feed(line); s.Prompt(); Effect e=inside(*cur,l,0); if (e.found && e.to) cur=e.to;
        symx_observe_u64(ran.size()); symx_observe_u64(wrong); observe(out.str());
        symx_assert(wrong==(e.found?0:1),"wrong command handler called iff nothing matches");
        if (e.cmd>=0) { symx_assert(ran.size()==1,"exactly one command runs"); if (ran.size()==1) symx_assert(ran[0]==e.cmd,"another command ran"); symx_reach("command"); }
        else { symx_assert(ran.empty(),"a command ran though the line only moves or is wrong"); symx_reach(e.found?"moved":"wrong"); }
        expectEq(out.str(),promptOf(cur->id)+"> ","the prompt must be the one of the current menu");
    }
}
#ifndef STEPS
#define STEPS 3
#endif
ENTRY(h_two) { // two sessions on the same menus: each one has its own place
    ran.clear(); int wrong=0; Node root; root.isMenu=true; root.id=0; root.name="R"; auto u=std::make_unique<Menu>(root.name,"(menu)",promptOf(0)); root.menu=u.get();
    addCmd(root,"a",10); Node* m=addMenu(root,"m",1); addCmd(*m,"b",11); Node* n=addMenu(*m,"n",2); addCmd(*n,"c",12); addCmd(*m,"a",14); Node* p=addMenu(root,"p",3); addCmd(*p,"d",13);
    Cli c(std::move(u)); c.WrongCommandHandler([&](std::ostream&,const std::string&){ ++wrong; });
    std::ostringstream out[2]; std::unique_ptr<CliSession> s[2]; Node* cur[2]={&root,&root}; s[0].reset(new CliSession(c,out[0])); int late=pick("late",2); if (!late) s[1].reset(new CliSession(c,out[1]));
    static const char* const words[]={"m","n","p","..","R","a","b","m n","m b","zz"}; 
    for (int k=0;k<STEPS;++k) {
        int i=k==STEPS-1?1:pick("session",2); if (!s[i]) s[i].reset(new CliSession(c,out[i])); // the second session comes when the first one is anywhere
        std::string line=words[pick("line",10)]; bool sym=line=="zz"; if (sym) { line=symString(1,"tok"); symx_assume(plainByte(line[0])); } Toks t; std::string w; for (char ch : line) { if (!sym && ch==' ') { t.push_back(w); w.clear(); } else w+=ch; } t.push_back(w);
        ran.clear(); wrong=0; for (auto& o : out) o.str(""); s[i]->Feed(line); s[i]->Prompt(); s[1-i] ? s[1-i]->Prompt() : void();
        Effect e=inside(*cur[i],t,0); if (e.found && e.to) cur[i]=e.to;
        symx_observe_u64(ran.size()); symx_observe_u64(wrong); observe(out[0].str()); observe(out[1].str());
        symx_assert(wrong==(e.found?0:1),"wrong command handler called iff nothing matches");
        if (e.cmd>=0) { symx_assert(ran.size()==1,"exactly one command runs"); if (ran.size()==1) symx_assert(ran[0]==e.cmd,"another command ran"); symx_reach("command"); } else { symx_assert(ran.empty(),"a command ran though the line only moves or is wrong"); symx_reach(e.found?"moved":"wrong"); }
        for (int j=0;j<2;++j) if (s[j]) expectEq(out[j].str(),promptOf(cur[j]->id)+"> ","the prompt must be the one of the current menu of the session");
        if (cur[0]!=cur[1]) symx_reach("apart");
    }
}
