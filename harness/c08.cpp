// C08: the Tab key.
#include "hkeys.h"
#include <cli/detail/commonprefix.h>
using namespace cli; using namespace cli::detail;
#ifndef TLEN
#define TLEN 3
#endif
#ifndef TABS
#define TABS 3
#endif
#ifndef PLEN
#define PLEN 3
#endif
// what may be on the screen: cells that are blank on both sides are equal; the typed bytes may be symbolic
static void expectRow(const std::string& row, const std::string& want, const char* msg) {
    std::string a=row, b=want; size_t n=std::max(a.size(),b.size()); a.resize(n,' '); b.resize(n,' '); expectEq(a,b,msg);
}
static void tabCase(std::unique_ptr<Menu> m, const std::string& text, int lefts, bool color) {
    if (color) SetColor(); else SetNoColor();
    KeyWorld w(std::move(m)); 
    for (char c : text) w.key(KeyType::ascii,c);
    for (int i=0;i<lefts;++i) w.key(KeyType::left);
    size_t row0=w.scr.r; std::string pr="R> ";
    expectRow(w.scr.rows[row0],pr+text,"the typed line must be shown");
    auto comps=w.s->GetCompletions(text);
    for (size_t i=1;i<comps.size();++i) for (size_t j=0;j<i;++j) symx_assert(!sameBytes(comps[i],comps[j]),"each completion is there once");
    w.key(KeyType::ascii,'\t');
    std::string line=text; size_t col=text.size()-lefts, row=row0;
    if (comps.size()==1) { line=comps[0]+" "; col=line.size(); symx_reach("single"); }
    else if (comps.size()>1) {
        size_t k=0; while (k<comps[0].size()) { bool all=true; for (auto& c : comps) if (k>=c.size() || c[k]!=comps[0][k]) all=false; if (!all) break; ++k; }
        if (k>text.size()) { line=comps[0].substr(0,k); symx_reach("prefix"); }
        else { row+=2; std::string l; for (auto& c : comps) l+="\t"+c; symx_assert(w.scr.r==row,"the list is one row, then the prompt again"); if (w.scr.r==row) { expectRow(w.scr.rows[row-1],l,"all the completions are listed once"); expectRow(w.scr.rows[row-2],pr+text,"the row above the list"); } symx_reach("list"); }
        col=line.size();
    } else symx_reach("none");
    symx_assert(w.scr.r==row,"the cursor row"); symx_assert(!w.scr.weird,"malformed terminal output");
    if (w.scr.r!=row) return;
    expectRow(w.scr.rows[row],pr+line,"the line shown after Tab"); symx_assert(w.scr.c==pr.size()+col,"the cursor column after Tab");
    symx_observe_u64(w.scr.c); observe(w.scr.rows[row]);
    w.key(KeyType::end); for (char c : std::string("Z Z")) w.key(KeyType::ascii,c); expectRow(w.scr.rows[row],pr+line+"Z Z","the line shown when typing on");
    w.key(KeyType::ret);
    symx_assert(w.entered.size()==1,"the line is entered once"); if (w.entered.size()==1) expectEq(w.entered[0],line+"Z Z","the entered line is the one shown");
}
static std::unique_ptr<Menu> menu(int kind) {
    auto m=std::make_unique<Menu>("R");
    auto f=[](std::ostream&){};
    if (kind==0) { m->Insert("hat",f); m->Insert("hats",f); m->Insert("ab c",f); }
    else { auto s=std::make_unique<Menu>("se"); s->Insert("tab",f); s->Insert("tax",f); m->Insert(std::move(s)); m->Insert("seat",f); }
    return m;
}
ENTRY(h_tab) { // any typed text, any cursor position
    int kind=symx_choice("menu",2), n=symx_choice("len",TLEN+1); std::string t=symString(n,"text"); printable(t);
    int lefts=n?symx_choice("left",n+1):0;
    tabCase(menu(kind),t,lefts,symx_choice("color",2));
}
ENTRY(h_tab_path) { // a path into a submenu
    std::string t="se"; int n=symx_choice("len",TLEN+1); std::string x=symString(n,"text"); printable(x); t+=symx_choice("blank",2)?" ":"  "; t+=x;
    tabCase(menu(1),t,symx_choice("left",2)*2,false);
}
ENTRY(h_names) { // arbitrary command names
    auto m=std::make_unique<Menu>("R"); auto f=[](std::ostream&){};
    std::string a=symString(1+symx_choice("la",2),"a"), b=symString(1+symx_choice("lb",3),"b"); printable(a); printable(b); for (char c : a) symx_assume(c!=' '); for (char c : b) symx_assume(c!=' '); a="q"+a; b="q"+b;
    m->Insert(a,f); m->Insert(b,f);
    tabCase(std::move(m),symx_choice("typed",2)?"q":"",0,false);
}
ENTRY(h_common_prefix) { // the longest common prefix of any texts
    int n=1+symx_choice("n",3); std::vector<std::string> v; for (int i=0;i<n;++i) v.push_back(symString(symx_choice("len",PLEN+1),"s"));
    std::string p=CommonPrefix(v); symx_observe_u64(p.size());
    bool longer=true; for (auto& s : v) { symx_assert(s.size()>=p.size(),"longer than one of the texts"); if (s.size()<p.size()) return; if (p.size()) symx_assert(memcmp(s.data(),p.data(),p.size())==0,"not a prefix of one of the texts"); if (s.size()==p.size()) longer=false; }
    if (longer) { uint64_t same=1; for (auto& s : v) same=same & (uint64_t)((unsigned char)s[p.size()]==(unsigned char)v[0][p.size()]); symx_assert(!same,"a longer common prefix exists"); symx_reach("differ"); } else symx_reach("exhausted");
}
ENTRY(h_many) { // many and long completions
    auto m=std::make_unique<Menu>("R"); auto f=[](std::ostream&){}; int n=pick("n",4); static const int lens[]={1,15,16,63,128,300}; std::string common(lens[pick("len",6)],'k');
    if (n==0) m->Insert(common+"x",f); else for (int i=0;i<n*9;++i) m->Insert(common+(i%2?"a":"b")+std::to_string(i),f);
    std::string t=pick("some",2)?"k":common; if (pick("more",2)) { std::string x=symString(1,"text"); printable(x); symx_assume(x[0]!='!'); t+=x; }
    tabCase(std::move(m),t,0,false);
}
ENTRY(h_again) { // Tab, more typing, Tab again, in the same line and in the next one
    SetNoColor(); KeyWorld w(menu(pick("menu",2))); static const char* const starts[]={"","h","s","se","ha"};
    std::string line=starts[pick("start",5)]; for (char c : line) w.key(KeyType::ascii,c);
    int enters=0;
    for (int k=0;k<3;++k) {
        auto comps=w.s->GetCompletions(line); size_t row=w.scr.r; std::string pr="R> ", before=line; w.key(KeyType::ascii,'\t');
        if (comps.size()==1) { line=comps[0]+" "; symx_reach("single"); }
        else if (comps.size()>1) {
            size_t n=0; while (n<comps[0].size()) { bool all=true; for (auto& c : comps) if (n>=c.size() || c[n]!=comps[0][n]) all=false; if (!all) break; ++n; }
            if (n>before.size()) { line=comps[0].substr(0,n); symx_reach("prefix"); }
            else { row+=2; std::string l; for (auto& c : comps) l+="\t"+c; symx_assert(w.scr.r==row,"the list is one row, then the prompt again"); if (w.scr.r!=row) return; expectRow(w.scr.rows[row-1],l,"all the completions are listed once"); symx_reach("list"); }
        } else symx_reach("none");
        symx_assert(w.scr.r==row,"the cursor row"); if (w.scr.r!=row) return; expectRow(w.scr.rows[row],pr+line,"the line shown after Tab"); symx_assert(w.scr.c==pr.size()+line.size(),"the cursor column after Tab"); observe(w.scr.rows[row]);
        if (k==2) break;
        switch (pick("then",5)) {
            case 0: break;
            case 1: { std::string x=symString(1,"text"); printable(x); w.key(KeyType::ascii,x[0]); line+=x; break; }
            case 2: if (line.empty()) symx_prune(); w.key(KeyType::backspace); line.pop_back(); break;
            case 3: { w.key(KeyType::ret); std::string shown=w.scr.rows[w.scr.r]; if (shown=="se> " || shown.empty()) symx_prune(); /* moved, exited */ line=""; const char* t=starts[pick("start",5)]; for (const char* p=t;*p;++p) { w.key(KeyType::ascii,*p); line+=*p; } symx_reach("another line"); break; }
            default: w.key(KeyType::ascii,'t'); line+='t'; break; }
    }
}
ENTRY(h_moved) { // Tab on the same text after lines that change the menu and after commands are disabled, enabled and removed
    SetNoColor(); auto f=[](std::ostream&){}; auto root=std::make_unique<Menu>("R"); auto m=std::make_unique<Menu>("m"), n=std::make_unique<Menu>("n"); CmdHandler h[4]; h[0]=n->Insert("hot",f); h[1]=n->Insert("hop",f); h[2]=m->Insert("hi",f); m->Insert(std::move(n)); h[3]=root->Insert("ham",f); root->Insert("hat",f); root->Insert("mn",f); root->Insert(std::move(m));
    KeyWorld w(std::move(root)); static const char* const texts[]={"","h","m ","m n h"}; int fixed=pick("text",4); std::string line; static const char* const moves[]={"m","m n","..",".. m","n"}; CmdHandler* off=nullptr;
    for (int k=0;k<TABS;++k) {
        for (const char* p=texts[fixed];*p;++p) { w.key(KeyType::ascii,*p); line+=*p; }
        auto comps=w.s->GetCompletions(line); std::string row=w.scr.rows[w.scr.r], pr=row.substr(0,row.find('>')+2); size_t r=w.scr.r; w.key(KeyType::ascii,'\t');
        if (comps.size()==1) { line=comps[0]+" "; symx_reach("single"); }
        else if (comps.size()>1) {
            size_t q=0; while (q<comps[0].size()) { bool all=true; for (auto& c : comps) if (q>=c.size() || c[q]!=comps[0][q]) all=false; if (!all) break; ++q; }
            if (q>line.size()) { line=comps[0].substr(0,q); symx_reach("prefix"); }
            else { r+=2; std::string l; for (auto& c : comps) l+="\t"+c; symx_assert(w.scr.r==r,"the list is one row, then the prompt again"); if (w.scr.r!=r) return; expectRow(w.scr.rows[r-1],l,"all the completions are listed once"); symx_reach("list"); }
        } else symx_reach("none");
        symx_assert(w.scr.r==r,"the cursor row"); if (w.scr.r!=r) return; expectRow(w.scr.rows[r],pr+line,"the line shown after Tab"); symx_assert(w.scr.c==pr.size()+line.size(),"the cursor column after Tab"); observe(w.scr.rows[r]);
        if (k+1==TABS) break;
        while (!line.empty()) { w.key(KeyType::backspace); line.pop_back(); }
        switch (pick("then",4)) { case 0: break; case 1: { const char* l=moves[pick("move",5)]; for (const char* p=l;*p;++p) w.key(KeyType::ascii,*p); w.key(KeyType::ret); symx_reach("moved"); break; } case 2: if (off) { off->Enable(); off=nullptr; } else { off=&h[pick("which",4)]; off->Disable(); } symx_reach("state"); break; default: h[pick("which",4)].Remove(); symx_reach("removed"); }
    }
}
