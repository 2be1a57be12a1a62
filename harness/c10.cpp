// C10: the history listing and "! id".
#include "hcli.h"
#include "hhist.h"
#include <cli/volatilehistorystorage.h>
using namespace cli;
#ifndef OPS2
#define OPS2 4
#endif
#ifndef OPS
#define OPS 4
#endif
struct World {
    size_t size; HistModel m; std::unique_ptr<Cli> c; std::ostringstream out; std::unique_ptr<CliSession> s;
    std::vector<std::string> ran, wantRan; int errors=0, wantErrors=0; std::vector<size_t> replaying;
    World(size_t n, const std::vector<std::string>& old) : size(n), m(n) {
        auto st=std::make_unique<VolatileHistoryStorage>(); st->Store(old); for (auto& l : old) m.load(l);
        c.reset(new Cli(std::make_unique<Menu>("R"),std::move(st)));
        c->WrongCommandHandler([this](std::ostream&,const std::string& l){ ran.push_back(l); });
        c->StdExceptionHandler([this](std::ostream&,const std::string&,const std::exception&){ ++errors; });
        s.reset(new CliSession(*c,out,n));
    }
    void model(const std::string& l) { // what entering the line must do
        m.enter(l);
        bool bang=l.size()>2 && l[0]=='!' && l[1]==' '; size_t id=0; for (size_t i=2;bang && i<l.size();++i) { if (l[i]>='0' && l[i]<='9') id=id*10+(size_t)(l[i]-'0'); else bang=false; }
        if (bang) {
            m.forgetLatest(); std::string t;
            if (!m.at(id,t)) { ++wantErrors; return; }
            for (size_t r : replaying) if (r==id) { ++wantErrors; return; }
            replaying.push_back(id); model(t); replaying.pop_back();
        } else if (l!="history") wantRan.push_back(l);
    }
    void line(const std::string& l) {
        ran.clear(); wantRan.clear(); errors=wantErrors=0; model(l); s->Feed(l);
        symx_observe_u64(ran.size()); symx_observe_u64(errors); for (auto& r : ran) observe(r);
        symx_assert(ran.size()==wantRan.size(),"wrong number of lines executed"); if (ran.size()==wantRan.size()) for (size_t i=0;i<ran.size();++i) expectEq(ran[i],wantRan[i],"another line was executed");
        symx_assert(errors==wantErrors,"an id that cannot be executed is an error, once");
        symx_reach(errors?"error":ran.size()==1&&l[0]=='!'?"replayed":"typed");
    }
    // the other session of the same Cli
    std::ostringstream out2; std::unique_ptr<CliSession> s2; std::unique_ptr<HistModel> m2;
    void second(size_t n, const std::vector<std::string>& old) { s2.reset(new CliSession(*c,out2,n)); m2.reset(new HistModel(n)); for (auto& l : old) m2->load(l); }
    void change() { s.swap(s2); std::swap(m,*m2); o=o==&out?&out2:&out; }
    std::ostringstream* o=&out;
    void list() { o->str(""); m.enter("history"); s->Feed("history"); observe(o->str()); expectEq(o->str(),m.listing(),"the listing: kept lines, oldest first, with their ids"); symx_reach("listed"); }
};
ENTRY(h_ids) {
    World w(symx_choice("size",4),{});
    for (int k=0;k<OPS;++k) {
        int op=symx_choice("op",4);
        if (op==0) w.line(symLine(1,"line"));
        else if (op==1) { std::string id=symString(1,"id"); symx_assume(id[0]>='0' && id[0]<='9'); w.line("! "+id); }
        else if (op==2) w.list();
        else { std::string e=symLine(1,"edit"); std::string a=w.s->PreviousCmd(e), b=w.m.up(e); expectEq(a,b,"up"); }
    }
    w.list();
}
ENTRY(h_loaded) { // stored lines that are "! id" themselves: chains and cycles
    std::vector<std::string> old; int n=1+symx_choice("n",3);
    for (int i=0;i<n;++i) { if (symx_choice("bang",2)) { std::string id=symString(1,"oid"); symx_assume(id[0]>='0' && id[0]<='9'); old.push_back("! "+id); } else old.push_back(symLine(1,"old")); }
    World w(2+symx_choice("size",3),old);
    w.list();
    for (int k=0;k+2<OPS;++k) { std::string id=symString(1,"id"); symx_assume(id[0]>='0' && id[0]<='9'); w.line("! "+id); }
    w.list();
}
ENTRY(h_bad_ids) { // anything after the "!" that is not a listed id
    World w(3,{"a","b"}); int n=1+symx_choice("len",3); std::string x=symLine(n,"x"); int er; 
    bool num=true; for (char c : x) if (!(c>='0'&&c<='9')) num=false;
    bool plus=x[0]=='+'; if (plus) { num=n>1; for (int i=1;i<n;++i) if (!(x[i]>='0'&&x[i]<='9')) num=false; }
    w.s->Feed("! "+x); symx_observe_u64(w.ran.size()); symx_observe_u64(w.errors);
    if (!num) { symx_assert(w.ran.size()==1 && w.errors==0,"not a number: a wrong command"); if (w.ran.size()==1) expectEq(w.ran[0],"! "+x,"wrong command line"); symx_reach("wrong"); }
    else { unsigned v=0; for (char c : x) if (c!='+') v=v*10+(c-'0');
        if (v<=1) { symx_assert(w.ran.size()==1 && w.errors==0,"a listed id is executed"); if (w.ran.size()==1) expectEq(w.ran[0],v==0?"a":"b","another line was executed"); symx_reach("executed"); }
        else { symx_assert(w.ran.empty() && w.errors==1,"an id that is not listed is an error"); symx_reach("error"); } }
}
ENTRY(h_big) { // large histories: ids of several digits
    static const int sizes[]={12,100,256,300}; int size=sizes[pick("size",4)]; static const int olds[]={0,5,300}; int no=olds[pick("old",3)]; std::vector<std::string> old; for (int i=0;i<no;++i) old.push_back("o"+std::to_string(i));
    World w(size,old); static const int lines[]={3,110,270}; int n=lines[pick("lines",3)]; for (int i=0;i<n;++i) w.line("l"+std::to_string(i)); w.line(symLine(2,"line"));
    int total=(int)w.m.nextId; int ids[]={0,1,9,10,99,100,127,128,255,256,300,total-1,total,total-2,total-size-1,total-size,total-size+1,total-size+2}; int id=ids[pick("id",18)]; if (id<0) symx_prune();
    w.line("! "+std::to_string(id)); w.list(); w.line("! "+std::to_string(id)); std::string d=symString(1,"digit"); symx_assume(d[0]>='0'&&d[0]<='9'); w.line("! "+std::to_string(total/10)+d); w.list();
}
ENTRY(h_old_session) { // a session with more lines than the ids of a narrow type
    static const int lines[]={126,254,255,256,32766,65534,65600}; World w(4,{}); int n=lines[pick("lines",7)]; for (int i=0;i<n;++i) { const char* l=i&1?"b":"a"; w.m.enter(l); w.s->Feed(l); }
    w.line(symLine(1,"line")); w.list(); int back=pick("back",7); int id=(int)w.m.nextId-back; if (id<0) symx_prune(); w.line("! "+std::to_string(id)); w.list(); std::string d=symString(1,"digit"); symx_assume(d[0]>='0'&&d[0]<='9'); w.line("! "+std::to_string(w.m.nextId/10)+d); w.list();
}
ENTRY(h_two) { // two sessions of the same Cli: each one has its own ids
    std::vector<std::string> old; if (pick("old",2)) old.push_back("o"); World w(pick("size",2)+1,old); w.second(3,old);
    for (int k=0;k<OPS2;++k) {
        if (pick("other",2)) { w.change(); symx_reach("changed"); }
        int op=pick("op",3); if (op==0) w.line(symLine(1,"line")); else if (op==1) { std::string id=symString(1,"id"); symx_assume(id[0]>='0' && id[0]<='9'); w.line("! "+id); } else w.list();
    }
    w.list(); w.change(); w.list();
}
