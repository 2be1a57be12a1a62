// C11: what a session adds to the stored history.
#include "hcli.h"
#include "hhist.h"
#include <cli/volatilehistorystorage.h>
using namespace cli;
#ifndef OPS2
#define OPS2 4
#endif
#ifndef OPS
#define OPS 4
#endif
struct Rec : HistoryStorage { std::vector<std::string>& all; int& stores; Rec(std::vector<std::string>& a, int& n) : all(a), stores(n) {}
    void Store(const std::vector<std::string>& c) override { ++stores; all.insert(all.end(),c.begin(),c.end()); }
    std::vector<std::string> Commands() const override { return all; } void Clear() override { all.clear(); } };
static void expectAll(const std::vector<std::string>& got, const std::vector<std::string>& want, const char* msg) { symx_observe_u64(got.size()); for (auto& g : got) observe(g); symx_assert(got.size()==want.size(),msg); if (got.size()==want.size()) for (size_t i=0;i<got.size();++i) expectEq(got[i],want[i],msg); }
static void session(Cli& c, size_t size, std::vector<std::string>& all, int& stores, int ops, const char* tag) {
    std::vector<std::string> before=all; int st0=stores; std::ostringstream out; CliSession s(c,out,size); HistModel m(size); for (auto& l : before) m.load(l);
    bool ended=false; auto isExit=[](const std::string& x) { return x.size()==4 && memcmp(x.data(),"exit",4)==0; };
    for (int k=0;k<ops && !ended;++k) {
        int op=symx_choice("op",4);
        if (op==0) { std::string l=symLine(1,"line"); s.Feed(l); m.enter(l); }
        else if (op==1) { std::string e=symx_choice("typed",2)?symLine(1,"edit"):std::string(); std::string a=s.PreviousCmd(e), b=m.up(e); expectEq(a,b,"up"); }
        else if (op==2) { // "! id" runs the line shown with that id, which becomes the newest
            std::string d=symString(1,"id"); symx_assume(d[0]>='0'&&d[0]<='9'); s.Feed("! "+d); m.enter("! "+d); m.forgetLatest(); std::string t; if (m.at((size_t)(d[0]-'0'),t)) { if (!t.empty()) { m.enter(t); ended=isExit(t); } } }
        else { s.Feed(" "); s.NextCmd(); m.down(); } // a blank line is no line
    }
    symx_assert(stores==st0+(ended?1:0),"stored before the exit");
    if (ended) ; else if (symx_choice("how",2)) { s.Feed("exit"); m.enter("exit"); } else s.Exit();
    symx_assert(stores==st0+1,"stored exactly once");
    std::vector<std::string> want=before, own=m.own(); want.insert(want.end(),own.begin(),own.end());
    expectAll(all,want,"the storage gets exactly the lines of this session"); if (own.size()>1) symx_reach("several"); if (own.empty()) symx_reach("none"); if (!before.empty()) symx_reach("after others");
    s.Exit(); s.Feed("exit"); symx_assert(stores==st0+1,"a second exit stores again");
}
ENTRY(h_one) { // one session over 0..2 stored lines
    std::vector<std::string> all; int stores=0; int n=symx_choice("old",3); for (int i=0;i<n;++i) all.push_back(symLine(1,"old"));
    Cli c(std::make_unique<Menu>("R"),std::make_unique<Rec>(all,stores)); c.WrongCommandHandler([](std::ostream&,const std::string&){});
    session(c,symx_choice("size",4),all,stores,OPS,"1");
}
ENTRY(h_two) { // two sessions one after the other
    std::vector<std::string> all; int stores=0;
    Cli c(std::make_unique<Menu>("R"),std::make_unique<Rec>(all,stores)); c.WrongCommandHandler([](std::ostream&,const std::string&){});
    size_t size=1+symx_choice("size",3); session(c,size,all,stores,OPS/2,"1"); session(c,size,all,stores,OPS/2,"2");
}
ENTRY(h_big) { // large histories, many stored lines
    static const int sizes[]={100,127,128,256,300}; int size=sizes[pick("size",5)]; static const int olds[]={0,20,400}; std::vector<std::string> all; int stores=0, no=olds[pick("old",3)]; for (int i=0;i<no;++i) all.push_back("o"+std::to_string(i));
    Cli c(std::make_unique<Menu>("R"),std::make_unique<Rec>(all,stores)); c.WrongCommandHandler([](std::ostream&,const std::string&){});
    std::vector<std::string> before=all; std::ostringstream out; std::unique_ptr<CliSession> sp; if (size==100 && pick("default",2)) sp.reset(new CliSession(c,out)); else sp.reset(new CliSession(c,out,size)); CliSession& s=*sp; HistModel m(size); for (auto& l : before) m.load(l);
    static const int lines[]={0,1,99,101,260}; int n=lines[pick("lines",5)], edit=pick("edit",2), ups[]={1,50,400}; 
    for (int i=0;i<n;++i) { std::string l="l"+std::to_string(i); if (i==n/2) l=symLine(1,"line"); s.Feed(l); m.enter(l); }
    int u=pick("up",4); if (u) for (int i=0;i<ups[u-1];++i) { std::string x=i==0?"":m.past[m.idx].text; if (edit && i==2) x="edited"; s.PreviousCmd(x); m.up(x); }
    if (pick("how",2)) { s.Feed("exit"); m.enter("exit"); } else s.Exit();
    std::vector<std::string> want=before, own=m.own(); want.insert(want.end(),own.begin(),own.end()); expectAll(all,want,"the storage gets exactly the lines of this session"); symx_assert(stores==1,"stored exactly once"); symx_reach(own.empty()?"none":"several");
}
ENTRY(h_overlap) { // two sessions at the same time: each one adds its own lines, once, when it ends
    std::vector<std::string> all, want; int stores=0, wantStores=0; if (pick("old",2)) { all.push_back("o"); want=all; }
    Cli c(std::make_unique<Menu>("R"),std::make_unique<Rec>(all,stores)); c.WrongCommandHandler([](std::ostream&,const std::string&){}); std::ostringstream out[2]; std::unique_ptr<CliSession> s[2]; std::unique_ptr<HistModel> m[2]; bool ended[2]={false,false}; static const size_t sizes[]={1,3};
    size_t size=sizes[pick("size",2)]; auto start=[&](int i) { s[i].reset(new CliSession(c,out[i],size+i)); m[i].reset(new HistModel(size+i)); for (auto& l : all) m[i]->load(l); };
    auto end=[&](int i) { for (auto& l : m[i]->own()) want.push_back(l); ++wantStores; ended[i]=true; };
    start(0); 
    for (int k=0;k<OPS2;++k) {
        int i=pick("session",2), op=pick("op",4); if (!s[i]) start(i);
        if (ended[i]) symx_prune();
        switch (op) {
            case 0: { std::string l=symLine(1,"line"); s[i]->Feed(l); m[i]->enter(l); break; }
            case 1: { std::string a=s[i]->PreviousCmd("e"), b=m[i]->up("e"); expectEq(a,b,"up"); break; }
            case 2: s[i]->Feed("exit"); m[i]->enter("exit"); end(i); break;
            default: s[i]->Exit(); end(i); break;
        }
        symx_assert(stores==wantStores,"stored exactly once, at the end of the session"); expectAll(all,want,"the storage gets exactly the lines of the session that ends");
    }
    for (int i=0;i<2;++i) if (s[i] && !ended[i]) { s[i]->Exit(); end(i); }
    symx_assert(stores==wantStores,"stored exactly once, at the end of the session"); expectAll(all,want,"the storage gets exactly the lines of the session that ends"); if (s[1]) symx_reach("two"); if (want.size()>2) symx_reach("several");
}
