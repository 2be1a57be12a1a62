// C20: exceptions out of command handlers.
#include "hcli.h"
#include <stdexcept>
#include <typeinfo>
#include <new>
using namespace cli;
#ifndef LINES
#define LINES 2
#endif
struct Bang : std::exception { const char* what() const noexcept override { return "bang"; } };
struct Mixin { int x=3; virtual ~Mixin() {} };
struct Multi : Mixin, std::runtime_error { Multi() : std::runtime_error("multi") {} };
struct VBase : virtual std::exception { const char* what() const noexcept override { return "vbase"; } };
struct MyCast : std::bad_cast { const char* what() const noexcept override { return "mycast"; } };
enum { NOTHING, RUNTIME, RANGE, BANG, MULTI, VIRT, CAST, MYCAST, ALLOC, BADFUN, EMPTY, ROWS, INT, CSTR, STR, OBJ, NKINDS };
static const char* what(int k) { switch (k) { case RUNTIME: return "oops"; case RANGE: return "range"; case BANG: return "bang"; case MULTI: return "multi"; case VIRT: return "vbase"; case CAST: return std::bad_cast().what(); case MYCAST: return "mycast"; case ALLOC: return std::bad_alloc().what(); case BADFUN: return std::bad_function_call().what(); case EMPTY: return ""; case ROWS: return " 50%\ttwo\nrows \n"; default: return nullptr; } }
static void raise(int k) { switch (k) { case RUNTIME: throw std::runtime_error("oops"); case RANGE: throw std::out_of_range("range"); case BANG: throw Bang(); case MULTI: throw Multi(); case VIRT: throw VBase(); case CAST: throw std::bad_cast(); case MYCAST: throw MyCast(); case ALLOC: throw std::bad_alloc(); case BADFUN: throw std::bad_function_call(); case EMPTY: throw std::logic_error(""); case ROWS: throw std::runtime_error(" 50%\ttwo\nrows \n"); case INT: throw 7; case CSTR: throw "text"; case STR: throw std::string("text"); case OBJ: throw Mixin(); default: break; } }
static int ranA, ranB, kindA; static std::vector<std::string> gotArgs;
static void fnptr(std::ostream&, int) { ++ranA; raise(kindA); }
struct Report { std::string line, text; bool stream; };
struct World {
    std::vector<Report> reports; std::vector<std::string> wrongs; std::unique_ptr<Cli> c; std::ostringstream out; std::unique_ptr<CliSession> s; bool handler, wrongHandler;
    World(int cmdKind) {
        ranA=ranB=0; gotArgs.clear(); handler=symx_choice("handler",2); wrongHandler=symx_choice("wrong",2);
        auto root=std::make_unique<Menu>("R"); auto sub=std::make_unique<Menu>("m");
        for (Menu* m : {root.get(),sub.get()}) {
            switch (cmdKind) { // the command that throws, then one that takes the same words
                case 0: m->Insert("x",[](std::ostream&){ ++ranA; raise(kindA); }); m->Insert("x",[](std::ostream&){ ++ranB; }); break;
                case 1: m->Insert("x",[](std::ostream&,const std::string& a){ ++ranA; gotArgs={a}; raise(kindA); }); m->Insert("x",[](std::ostream&,const std::string&){ ++ranB; }); break;
                case 2: m->Insert("x",[](std::ostream&,int){ ++ranA; raise(kindA); }); m->Insert("x",[](std::ostream&,long){ ++ranB; }); m->Insert("x",[](std::ostream&,const std::string&){ ++ranB; }); break;
                case 3: m->Insert("x",[](std::ostream&,const std::vector<std::string>& a){ ++ranA; gotArgs=a; raise(kindA); }); m->Insert("x",[](std::ostream&,const std::vector<std::string>&){ ++ranB; }); break;
                default: m->Insert("x",fnptr,"help"); m->Insert("x",[](std::ostream&,int){ ++ranB; }); break;
            }
            m->Insert("fine",[](std::ostream& o){ o << "fine\n"; });
        }
        sub->Insert("only",[](std::ostream& o){ o << "sub\n"; }); root->Insert(std::move(sub));
        c.reset(new Cli(std::move(root)));
        if (handler) c->StdExceptionHandler([this](std::ostream& o,const std::string& l,const std::exception& e){ reports.push_back({l,e.what(),&o==&out}); });
        if (wrongHandler) c->WrongCommandHandler([this](std::ostream&,const std::string& l){ wrongs.push_back(l); });
        s.reset(new CliSession(*c,out));
    }
    bool inSub=false;
    std::string prompt() { out.str(""); s->Prompt(); return out.str(); }
    void line(const std::string& l, int kind, bool replayed) {
        kindA=kind; ranA=ranB=0; reports.clear(); wrongs.clear(); out.str("");
        s->Feed(replayed?"! 0":l);
        std::string text=out.str(); observe(text); symx_observe_u64(reports.size());
        symx_assert(ranA==1,"the command runs once"); symx_assert(ranB==0,"another command was tried after the exception"); symx_assert(wrongs.empty(),"the wrong command handler was called");
        if (kind==NOTHING) { symx_assert(reports.empty() && text.empty(),"something was reported without exception"); symx_reach("no exception"); }
        else if (const char* w=what(kind)) {
            if (handler) { symx_assert(reports.size()==1,"a standard exception is reported once"); if (reports.size()==1) { expectEq(reports[0].line,l,"the reported line"); expectEq(reports[0].text,w,"the reported exception"); symx_assert(reports[0].stream,"the stream of the session"); } symx_assert(text.empty(),"output besides the handler"); symx_reach("handler"); }
            else { symx_assert(reports.empty(),"reported to nobody"); expectEq(text,std::string(w)+"\n","the text of the exception on the output"); symx_reach("default"); }
        } else {
            symx_assert(reports.empty(),"not a standard exception"); symx_assert(!text.empty() && text.back()=='\n',"a message"); bool names=false; for (size_t i=0;i+l.size()<=text.size() && !names;++i) names=memcmp(text.data()+i,l.data(),l.size())==0; symx_assert(names,"the message names the line");
            size_t nl=0; for (size_t i=0;i+1<text.size();++i) if (text[i]=='\n') ++nl; symx_assert(nl==0,"one message"); symx_reach("unknown");
        }
        symx_assert(prompt()==(inSub?"m> ":"R> "),"the session is still in the same menu");
        out.str(""); s->Feed("fine"); expectEq(out.str(),"fine\n","the session is still usable");
        out.str(""); s->Feed(inSub?"only":"m only"); expectEq(out.str(),"sub\n","the session is still usable");
    }
};
static std::string arg() { std::string a=symString(2,"arg"); for (char c : a) symx_assume(!(c==' '||(c>=9&&c<=13)||c=='!'||c=='"'||c=='\''||c=='\\')); return a; }
static void one(bool deep) {
    int cmdKind=symx_choice("cmd",5); World w(cmdKind); SetNoColor();
    int where=symx_choice("where",4); // top level, through a path, in the submenu, through the parent
    std::string args; if (cmdKind==1) args=" "+arg(); else if (cmdKind==2 || cmdKind==4) args=" 42"; else if (cmdKind==3) args=symx_choice("args",2)?" "+arg()+" b":"";
    if (where>=2) { w.s->Feed("m"); w.inSub=true; }
    std::string l=where==0?"x"+args:where==1?"m x"+args:where==2?"x"+args:symx_choice("parent",2)?".. x"+args:"R x"+args;
    bool replay=where==0 && symx_choice("replay",2);
    if (replay) { kindA=NOTHING; w.s->Feed(l); }
    w.line(l,symx_choice("kind",NKINDS),replay); if (replay && !deep) symx_reach("replayed");
    if (deep) for (int i=1;i<LINES;++i) { int k=symx_choice("kind",NKINDS); if (k==STR||k==OBJ||k==RANGE||k==BANG||k==ROWS) symx_prune(); w.line(l,k,false); }
}
ENTRY(h_one) { one(false); }
ENTRY(h_many) { one(true); } // more exceptions in the same session
ENTRY(h_nested) { // a handler that feeds a line whose handler throws; its own exception in between
    World w(0); SetNoColor(); int k1=symx_choice("inner",NKINDS), k2=symx_choice("outer",NKINDS);
    auto root=std::make_unique<Menu>("R"); CliSession* sp=nullptr; root->Insert("outer",[&](std::ostream&){ kindA=k1; sp->Feed("in"); raise(k2); }); root->Insert("in",[&](std::ostream&){ raise(k1); });
    Cli c(std::move(root)); std::vector<std::string> lines; int wrong=0; std::ostringstream out;
    c.StdExceptionHandler([&](std::ostream&,const std::string& l,const std::exception&){ lines.push_back(l); }); c.WrongCommandHandler([&](std::ostream&,const std::string&){ ++wrong; });
    CliSession s(c,out); sp=&s; s.Feed("outer"); observe(out.str()); symx_observe_u64(lines.size());
    std::vector<std::string> want; if (what(k1)) want.push_back("in"); if (what(k2)) want.push_back("outer");
    symx_assert(wrong==0,"wrong command"); symx_assert(lines==want,"each exception is reported once, with its line");
    size_t nl=0; for (char ch : out.str()) if (ch=='\n') ++nl; symx_assert(nl==(size_t)((k1>=INT)+(k2>=INT)),"each unknown exception gives one message"); symx_reach("nested");
}
ENTRY(h_big) { // long lines, many arguments, hundreds of exceptions in a session
    int cmdKind=symx_choice("cmd",2)?3:1; World w(cmdKind); SetNoColor(); std::string l="x", a=arg(); static const int sizes[]={50,240,300,1100}; int n=sizes[pick("size",4)]; if (cmdKind==1) l+=" "+std::string(n,'y')+a; else for (int i=0;i<n/4;++i) l+=i==n/8?" "+a:" y"+std::to_string(i%10);
    int k=pick("kind",6); static const int ks[]={RUNTIME,EMPTY,ROWS,INT,CSTR,OBJ}; int many=pick("many",2)?200:1; for (int i=0;i<many-1;++i) { w.out.str(""); kindA=i%2?RUNTIME:INT; w.reports.clear(); w.s->Feed(cmdKind==1?"x y":"x"); if (w.handler && i%2) symx_assert(w.reports.size()==1,"reported once"); } w.line(l,ks[k],false); symx_reach("big");
}
ENTRY(h_two) { // two sessions of two Clis (or of the same one), a command of one executes a line of the other: each exception is reported where its line was entered, by the handler in force
    SetNoColor(); bool same=symx_choice("same",2); int k1=symx_choice("inner",NKINDS), k2=symx_choice("outer",NKINDS), h=symx_choice("handlers",4); if ((k1==STR||k1==OBJ||k1==RANGE||k1==VIRT||k1==MYCAST||k1==ROWS) || (k2==STR||k2==OBJ||k2==RANGE||k2==VIRT||k2==MYCAST||k2==ROWS)) symx_prune();
    CliSession* other=nullptr; std::ostringstream out[2]; struct Rep { int by; std::string line; int on; }; std::vector<Rep> reps; auto mk=[&]{ auto root=std::make_unique<Menu>("R"); root->Insert("outer",[&](std::ostream&){ other->Feed("in"); raise(k2); }); root->Insert("in",[&](std::ostream&){ raise(k1); }); root->Insert("fine",[](std::ostream& o){ o << "fine\n"; }); return root; };
    Cli c0(mk()), c1(mk()); auto handler=[&](int by) { return [&,by](std::ostream& o,const std::string& l,const std::exception&){ reps.push_back({by,l,&o==&out[0]?0:&o==&out[1]?1:-1}); }; };
    Cli& b=same?c0:c1; int by[2]={-1,-1}; if (h&1) { c0.StdExceptionHandler(handler(0)); by[0]=0; } if (h&2) { c1.StdExceptionHandler(handler(1)); by[1]=1; } if (h==3) { c0.StdExceptionHandler(handler(2)); by[0]=2; } // replaced
    CliSession s0(c0,out[0]), s1(b,out[1]); other=&s1; s0.Feed("outer"); observe(out[0].str()); observe(out[1].str()); symx_observe_u64(reps.size());
    int hb=same?by[0]:by[1]; size_t r=0; auto expect=[&](int k, int handler, int on, const std::string& line) { const std::string t=out[on].str(); if (k==NOTHING) { expectEq(t,"","nothing to report"); return; } const char* w=what(k);
        if (w && handler>=0) { symx_assert(reps.size()>r && reps[r].by==handler && reps[r].line==line && reps[r].on==on,"reported once, by the handler in force, with the line and the stream of its session"); ++r; expectEq(t,"","output besides the handler"); symx_reach("handler"); }
        else if (w) { expectEq(t,std::string(w)+"\n","the text of the exception on the output of its session"); symx_reach("default"); }
        else { symx_assert(t.find(line)!=std::string::npos,"the message names the line"); symx_assert(std::count(t.begin(),t.end(),'\n')==1,"one message"); symx_reach("unknown"); } };
    expect(k1,hb,1,"in"); expect(k2,by[0],0,"outer"); symx_assert(r==reps.size(),"each exception is reported once");
    for (int i=0;i<2;++i) { out[i].str(""); (i?s1:s0).Feed("fine"); expectEq(out[i].str(),"fine\n","the session is still usable"); } symx_reach("two");
}
