// C07: completions are exactly the enabled continuations of the typed text.
#include "hcli.h"
using namespace cli;
#ifndef NLEN
#define NLEN 2
#endif
#ifndef TLEN
#define TLEN 4
#endif
struct Node { bool isMenu=false, enabled=true; std::string name; Node* parent=nullptr; std::vector<std::unique_ptr<Node>> kids; Menu* menu=nullptr; CmdHandler h; };
typedef std::vector<std::string> Set;
static void add(Set& s, const std::string& x) { for (auto& y : s) if (sameBytes(x,y)) return; s.push_back(x); }
static bool starts(const std::string& s, const std::string& p) { return s.size()>=p.size() && (p.empty() || memcmp(s.data(),p.data(),p.size())==0); }
static std::string trim(const std::string& s) { size_t i=0; while (i<s.size() && (s[i]==' '||(s[i]>=9&&s[i]<=13))) ++i; return s.substr(i); }
static void inside(const Node& m, const std::string& t, Set& out);
static void under(const Node& m, const std::string& word, const std::string& t, Set& out) { Set r; inside(m,trim(t.substr(word.size())),r); for (auto& c : r) add(out,word+" "+c); }
static void menuEntry(const Node& m, const std::string& t, bool isParent, Set& out) { // a menu met as a submenu or as the parent
    if (!m.enabled) return;
    if (starts(t,m.name)) under(m,m.name,t,out);
    else if (isParent && starts(t,"..")) under(m,"..",t,out);
    else if (starts(m.name,t)) add(out,m.name);
}
static void inside(const Node& m, const std::string& t, Set& out) {
    for (auto& k : m.kids) { if (k->isMenu) menuEntry(*k,t,false,out); else if (k->enabled && starts(k->name,t)) add(out,k->name); }
    if (m.parent) menuEntry(*m.parent,t,true,out);
}
static Node* cmd(Node& m, const std::string& n) { std::unique_ptr<Node> k(new Node); k->name=n; k->parent=&m; k->h=m.menu->Insert(n,[](std::ostream&){}); Node* r=k.get(); m.kids.push_back(std::move(k)); return r; }
static Node* sub(Node& m, const std::string& n) { std::unique_ptr<Node> k(new Node); k->name=n; k->isMenu=true; k->parent=&m; auto u=std::make_unique<Menu>(n); k->menu=u.get(); k->h=m.menu->Insert(std::move(u)); Node* r=k.get(); m.kids.push_back(std::move(k)); return r; }
static void disable(Node* n, const char* nm) { if (symx_choice(nm,2)) { n->enabled=false; if (n->menu) n->menu->Disable(); else n->h.Disable(); } }
static void check(const CliSession& s, const Node& cur, const std::string& text) {
    auto got=s.GetCompletions(text);
    symx_observe_u64(got.size()); for (auto& g : got) observe(g);
    std::string t=trim(text); Set want;
    for (const char* b : {"help","exit","history","!"}) if (starts(b,t)) add(want,b);
    if (cur.enabled) inside(cur,t,want);
    symx_assert(got.size()==want.size(),"wrong number of completions");
    for (size_t i=0;i+1<got.size();++i) { const std::string &a=got[i], &b=got[i+1]; size_t n=std::min(a.size(),b.size()); int r=memcmp(a.data(),b.data(),n); symx_assert(r<0 || (r==0 && a.size()<b.size()),"completions must be sorted and distinct"); }
    for (auto& w : want) { bool f=false; for (auto& g : got) if (sameBytes(g,w)) { f=true; break; } symx_assert(f,"a completion is missing"); }
    symx_reach(got.empty()?"none":got.size()==1?"one":"several");
}
struct World {
    Node root; Node *m,*n,*he; std::unique_ptr<Cli> c; std::ostringstream out; std::unique_ptr<CliSession> s;
    World(const std::string& R, const std::string& A, const std::string& M, const std::string& X, const std::string& N) {
        auto u=std::make_unique<Menu>(R); root.isMenu=true; root.name=R; root.menu=u.get();
        a=cmd(root,A); cmd(root,"ac"); m=sub(root,M); x=cmd(*m,X); cmd(*m,A); n=sub(*m,N); y=cmd(*n,"y"); he=sub(root,"he"); cmd(*he,"h");
        c.reset(new Cli(std::move(u))); s.reset(new CliSession(*c,out));
    }
    Node *a,*x,*y;
};
ENTRY(h_texts) { // any text, any subset of disabled entries, from every menu
    World w("R","a","m","ax","n");
    disable(w.a,"da"); disable(w.m,"dm"); disable(w.n,"dn"); disable(&w.root,"dr"); disable(w.x,"dx");
    Node* from[]={&w.root,w.m,w.n,w.he}; Node* cur=from[symx_choice("menu",4)]; w.s->Current(cur->menu);
    check(*w.s,*cur,symString(symx_choice("len",TLEN+1),"text"));
}
ENTRY(h_paths) { // longer texts: two words of a path, then any bytes
    World w("R","a","m","ax","n"); disable(w.m,"dm"); disable(w.n,"dn"); disable(w.y,"dy"); disable(&w.root,"dr");
    Node* from[]={&w.root,w.m,w.n}; Node* cur=from[symx_choice("menu",3)]; w.s->Current(cur->menu);
    const char* const words[]={"m","n","R","..","he"}; std::string t=words[symx_choice("w1",5)]; t+=symx_choice("sep",2)?" ":"\t "; if (symx_choice("two",2)) { t+=words[symx_choice("w2",5)]; t+=' '; }
    check(*w.s,*cur,t+symString(symx_choice("len",3),"text"));
}
static std::string anyName(const char* n) { std::string s=symString(1,n); symx_assume(!(s[0]==' '||(s[0]>=9&&s[0]<=13))); return s; }
ENTRY(h_names) { // arbitrary one byte names
    World w(anyName("R"),anyName("A"),anyName("M"),"ax",anyName("N"));
    Node* from[]={&w.root,w.m,w.n}; Node* cur=from[symx_choice("menu",3)]; w.s->Current(cur->menu);
    check(*w.s,*cur,symString(symx_choice("len",NLEN+1),"text"));
}
ENTRY(h_names_deep) { // the same with two arbitrary names and longer texts
    std::string a=anyName("A"), b=anyName("B"); int k=symx_choice("which",3);
    World w(k==0?a:"R",k==1?a:k==2?b:"a",k==0?b:k==1?b:"m","ax",k==2?a:"n");
    Node* from[]={&w.root,w.m,w.n}; Node* cur=from[symx_choice("menu",3)]; w.s->Current(cur->menu);
    check(*w.s,*cur,symString(symx_choice("len",NLEN+2),"text"));
}
ENTRY(h_deep) { // a deep chain of menus, many entries, long names
    const int D=5; Node root; root.isMenu=true; root.name="r"; auto u=std::make_unique<Menu>("r"); root.menu=u.get(); std::vector<Node*> chain{&root};
    for (int d=1;d<=D;++d) { Node* p=chain.back(); cmd(*p,"c"+std::to_string(d)); Node* n=sub(*p,d==3?std::string(60,'m'):"m"+std::to_string(d)); cmd(*p,"m"); sub(*p,"other"); chain.push_back(n); }
    for (int i=0;i<20;++i) cmd(*chain.back(),(i%2?"x":"yy")+std::string(i,'z')); 
    Cli c(std::move(u)); std::ostringstream out; CliSession s(c,out); int start=pick("start",D+1); s.Current(chain[start]->menu);
    int off=pick("disabled",D+2); if (off<=D) { chain[off]->enabled=false; chain[off]->menu->Disable(); }
    int down=pick("down",D-start+1), up=pick("up",start+down+2); bool dots=pick("dots",2); std::string t;
    for (int i=1;i<=down;++i) t+=chain[start+i]->name+" "; for (int i=1;i<=up;++i) t+=(dots || start+down-i<0 ? std::string("..") : chain[start+down-i]->name)+(i%2?" ":"  ");
    check(s,*chain[start],t+symString(pick("len",2),"text"));
}
ENTRY(h_again) { // the same text asked again, after a change or from elsewhere
    World w("R","a","m","ax","n"); Node* from[]={&w.root,w.m,w.n}; int at=pick("menu",3); Node* cur=from[at]; w.s->Current(cur->menu); std::ostringstream out2; CliSession s2(*w.c,out2);
    static const char* const texts[]={"","a","m ","m a","..",".. ","n ","he"}; int k=pick("text",9); std::string t=k<8?std::string(texts[k]):symString(1,"text");
    check(*w.s,*cur,t); int change=pick("change",9);
    switch (change) {
        case 0: w.a->enabled=false; w.a->h.Disable(); break; case 1: w.m->enabled=false; w.m->menu->Disable(); break; case 2: w.n->enabled=false; w.n->h.Disable(); break; case 3: w.x->enabled=false; w.x->h.Disable(); check(*w.s,*cur,t); w.x->enabled=true; w.x->h.Enable(); break;
        case 4: w.a->h.Remove(); for (auto it=w.root.kids.begin();it!=w.root.kids.end();++it) if (it->get()==w.a) { w.root.kids.erase(it); break; } break;
        case 5: cmd(*cur,"ab"); break; case 6: cmd(*sub(*cur,"aa"),"q"); break; case 7: cur=from[(at+1)%3]; w.s->Current(cur->menu); break; default: s2.Current(from[(at+2)%3]->menu); check(s2,*from[(at+2)%3],t); break; }
    check(*w.s,*cur,t); check(*w.s,*cur,t+"a");
}
