// C04: which command a line executes, with which arguments.
#include "hcli.h"
using namespace cli;
#ifndef ARGLEN
#define ARGLEN 2
#endif
#ifndef RAWLEN
#define RAWLEN 4
#endif
#ifndef SEQ
#define SEQ 2
#endif
struct Call { int cmd; int num; std::vector<std::string> args; };
static std::vector<Call> calls; static std::vector<std::string> wrong;
static std::string num(long long v) { return std::to_string(v); }
enum { NONE, INT, STR, CHR, INTSTR, FREE, NKINDS };
static void add(Menu& m, int id, const std::string& name, int kind) {
    switch (kind) {
        case NONE: m.Insert(name,[id](std::ostream& o){ calls.push_back({id,0,{}}); o << "ran " << id << "\n"; }); break;
        case INT: m.Insert(name,[id](std::ostream& o,int v){ calls.push_back({id,v,{}}); o << "ran " << id << "\n"; }); break;
        case STR: m.Insert(name,[id](std::ostream& o,const std::string& s){ calls.push_back({id,0,{s}}); o << "ran " << id << "\n"; }); break;
        case CHR: m.Insert(name,[id](std::ostream& o,char c){ calls.push_back({id,0,{std::string(1,c)}}); o << "ran " << id << "\n"; }); break;
        case INTSTR: m.Insert(name,[id](std::ostream& o,int v,const std::string& s){ calls.push_back({id,v,{s}}); o << "ran " << id << "\n"; }); break;
        case FREE: m.Insert(name,[id](std::ostream& o,const std::vector<std::string>& a){ calls.push_back({id,0,a}); o << "ran " << id << "\n"; }); break;
    }
}
static bool isInt(const std::string& s, int& v) { size_t i=0; bool neg=false; if (!s.empty() && (s[0]=='+'||s[0]=='-')) { neg=s[0]=='-'; i=1; } if (i==s.size()) return false; int m=0; for (;i<s.size();++i) { if (!(s[i]>='0'&&s[i]<='9')) return false; m=m*10+(s[i]-'0'); } v=neg?-m:m; return true; }
// does a command of that kind take the arguments? (and as what)
static bool takes(int kind, const std::vector<std::string>& a, int& v, std::vector<std::string>& got) {
    v=0; got.clear();
    switch (kind) {
        case NONE: return a.empty();
        case INT: return a.size()==1 && isInt(a[0],v);
        case STR: if (a.size()!=1) return false; got=a; return true;
        case CHR: if (a.size()!=1 || a[0].size()!=1) return false; got=a; return true;
        case INTSTR: if (a.size()!=2 || !isInt(a[0],v)) return false; got={a[1]}; return true;
        default: got=a; return true;
    }
}
struct Cmd { std::string name; int kind; };
static std::unique_ptr<Menu> build(const std::vector<Cmd>& cmds) { auto root=std::make_unique<Menu>("root"); for (size_t i=0;i<cmds.size();++i) add(*root,(int)i,cmds[i].name,cmds[i].kind); return root; }
struct World { Cli c; std::ostringstream out; CliSession s; bool handler;
    World(const std::vector<Cmd>& cmds, bool h) : c(build(cmds)), s(c,out), handler(h) { if (h) c.WrongCommandHandler([](std::ostream&,const std::string& l){ wrong.push_back(l); }); } };
static void feed(World& world, const std::vector<Cmd>& cmds, const std::string& line, const std::vector<std::string>& toks) {
    calls.clear(); wrong.clear(); world.out.str(""); const bool handler=world.handler;
    world.s.Feed(line);
    std::string text=world.out.str(); observe(text); symx_observe_u64(calls.size());
    if (toks.empty()) { symx_assert(calls.empty() && wrong.empty() && text.empty(),"an empty line must do nothing"); symx_reach("empty"); return; }
    // built-in commands come first
    bool builtin = toks.size()==1 && (toks[0]=="help"||toks[0]=="exit"||toks[0]=="history"); int v;
    if (toks.size()==2 && toks[0]=="!" && isInt(toks[1],v) && toks[1][0]!='-') builtin=true;
    if (builtin) { symx_assert(calls.empty() && wrong.empty(),"a built-in command must not reach the user's commands"); symx_reach("builtin"); return; }
    std::vector<std::string> args(toks.begin()+1,toks.end()), want; int w=-1, wnum=0;
    for (size_t i=0;i<cmds.size() && w<0;++i) if (cmds[i].name==toks[0] && takes(cmds[i].kind,args,wnum,want)) w=(int)i;
    if (w<0) {
        symx_assert(calls.empty(),"a wrong command line executed something");
        if (handler) { symx_assert(wrong.size()==1,"wrong command handler must be called exactly once"); if (wrong.size()==1) expectEq(wrong[0],line,"wrong command handler got another line"); symx_assert(text.empty(),"output besides the wrong command handler"); }
        else expectEq(text,"wrong command: "+line+"\n","wrong command message");
        symx_reach("wrong");
    } else {
        symx_assert(wrong.empty(),"wrong command handler called for a valid command");
        symx_assert(calls.size()==1,"exactly one command must be executed, once");
        if (calls.size()==1) { symx_assert(calls[0].cmd==w,"another command was executed"); symx_assert(calls[0].num==wnum,"wrong integer argument"); symx_assert(calls[0].args.size()==want.size(),"wrong number of arguments"); if (calls[0].args.size()==want.size()) for (size_t k=0;k<want.size();++k) expectEq(calls[0].args[k],want[k],"wrong argument"); }
        expectEq(text,"ran "+num(w)+"\n","output of the command");
        symx_reach("executed");
    }
}
static void run(const std::vector<Cmd>& cmds, const std::string& line, const std::vector<std::string>& toks, bool handler) { World w(cmds,handler); feed(w,cmds,line,toks); }
static bool plain(char c) { return c!=' '&&c!='\t'&&c!='\n'&&c!='!'&&c!='"'&&c!='\''&&c!='\\'; }
ENTRY(h_resolve) { // two commands, every pair of kinds and names; arguments of arbitrary ordinary bytes
    const char* const n2[]={"ab","a","help"}; const char* const ln[]={"ab","a","help","abc"};
    std::vector<Cmd> cmds; int k1=symx_choice("kind1",NKINDS); cmds.push_back({"ab",k1});
    int w=symx_choice("name2",3), k2=symx_choice("kind2",NKINDS); cmds.push_back({n2[w],k2});
    std::vector<std::string> toks{ln[symx_choice("word",4)]}; int na=symx_choice("args",3);
    for (int i=0;i<na;++i) { std::string a=symString(1+symx_choice("arglen",ARGLEN),"arg"); for (char c : a) symx_assume(plain(c)); toks.push_back(a); }
    std::string line; for (auto& t : toks) { if (!line.empty()) line+=' '; line+=t; }
    run(cmds,line,toks,symx_choice("handler",2));
}
// any line at all
struct Grammar { // the documented grammar, as in C01
    std::vector<std::string> out; const std::string& in; size_t i=0; explicit Grammar(const std::string& s) : in(s) { run(); }
    void esc(std::string& t) { ++i; if (i>=in.size()) return; char c=in[i++]; if (!(c=='"'||c=='\''||c=='\\')) t+='\\'; t+=c; }
    static bool blank(char c) { return c==' '||c=='\t'||c=='\n'; }
    void run() { while (i<in.size()) { char c=in[i]; if (blank(c)) { ++i; continue; } std::string t;
        if (c=='!') { ++i; t="!"; } else if (c=='"'||c=='\'') { char q=c; ++i; while (i<in.size() && in[i]!=q) { if (in[i]=='\\') esc(t); else t+=in[i++]; } ++i; }
        else while (i<in.size() && plain(in[i])) t+=in[i++], chk(t); if (!t.empty()) out.push_back(t); } }
    void chk(std::string& t) { while (i<in.size() && in[i]=='\\') esc(t); }
};
ENTRY(h_line) { // any line of RAWLEN bytes against commands named a (int), a (string), b (list)
    int n=symx_choice("len",RAWLEN+1); std::string line=symString(n,"line");
    for (char c : line) symx_assume(c!='\\'); // escapes: C01
    Grammar g(line);
    run({{"a",INT},{"a",STR},{"b",FREE}},line,g.out,true);
}
ENTRY(h_sequence) { // what a line executes does not depend on the lines before it
    static const char* const words[]={"a","b","c"}; std::vector<Cmd> cmds{{"a",NONE},{"a",INT},{"a",STR},{"b",INTSTR},{"b",FREE},{"a",FREE}}; World w(cmds,symx_choice("handler",2));
    for (int i=0;i<SEQ;++i) {
        std::vector<std::string> toks{words[symx_choice("word",3)]}; int na=symx_choice("args",3);
        for (int k=0;k<na;++k) { std::string a=symString(1,"arg"); symx_assume(plain(a[0])); toks.push_back(a); }
        std::string line; for (auto& t : toks) { if (!line.empty()) line+=' '; line+=t; }
        feed(w,cmds,line,toks);
    }
}
// every way to insert a command, many parameters, many overloads, long arguments
static std::vector<std::string> seen; 
static void note(const std::string& s) { seen.push_back(s); }
static void freeFn(std::ostream&, int a, const std::string& b) { note("fn:"+num(a)+":"+b); }
static int freeRet(std::ostream&) { note("ret"); return 5; }
struct Functor { std::string tag; void operator()(std::ostream&, unsigned a) const { note(tag+num(a)); } };
struct Own : Command { explicit Own(const std::string& n) : Command(n) {} bool Exec(const std::vector<std::string>& l, CliSession&) override { if (l[0]!=Name() || l.size()!=4) return false; note("own:"+l[3]); return true; } void Help(std::ostream&) const override {} };
ENTRY(h_kinds) {
    seen.clear(); wrong.clear(); auto root=std::make_unique<Menu>("root");
    root->Insert("f",freeFn,"help"); root->Insert("r",freeRet,"help"); root->Insert("u",Functor{"functor:"},"help");
    std::function<void(std::ostream&,bool,char)> sf=[](std::ostream&,bool b,char c){ note(std::string(b?"T":"F")+c); }; root->Insert("s",{"first","second"},sf,"help");
    root->Insert("v",[](std::ostream&,std::vector<std::string> a){ std::string t="v"; for (auto& x : a) t+="|"+x; note(t); });
    root->Insert("w",{"list"},[](std::ostream&,const std::vector<std::string>& a){ note("w"+num((long long)a.size())+(a.empty()?"":a.back())); },"help");
    root->Insert("m",[](std::ostream&,int a,std::string b,char c,const std::string& d,unsigned e,long f,bool g,short h){ note(num(a)+b+c+d+num(e)+num(f)+(g?"T":"F")+num(h)); });
    root->Insert("x",[](std::ostream&,int,int){ note("two"); }); root->Insert("x",[](std::ostream&,int,int,int){ note("three"); }); root->Insert("x",[](std::ostream&){ note("zero"); }); root->Insert("x",[](std::ostream&,const std::string&){ note("string"); });
    root->Insert(std::make_unique<Own>("o"));
    for (int i=0;i<20;++i) root->Insert("z"+num(i),[i](std::ostream&){ note("z"+num(i)); });
    Cli c(std::move(root)); c.WrongCommandHandler([](std::ostream&,const std::string& l){ wrong.push_back(l); }); std::ostringstream out; CliSession s(c,out);
    static const int lens[]={1,15,16,64,255,256,300}; std::string arg=symString(1,"arg"); symx_assume(plain(arg[0])); std::string d; std::string line, want; int v;
    switch (pick("case",15)) {
        case 0: { std::string l(lens[pick("len",7)],'k'); line="f -17 "+l+arg; want="fn:-17:"+l+arg; break; }
        case 1: line="f "+arg+" q"; if (isInt(arg,v)) want="fn:"+num(v)+":q"; break;
        case 2: line="r"; want="ret"; break;
        case 3: line="u "+arg; if (isInt(arg,v)) want="functor:"+num(v); break;
        case 4: line="s "+arg+" c"; if (arg=="0") want="Fc"; else if (arg=="1") want="Tc"; break;
        case 5: line="s true "+arg; want="T"+arg; break;
        case 6: { int n=pick("n",4)*17; line="v"; want="v"; for (int i=0;i<n;++i) { line+=" w"+num(i); want+="|w"+num(i); } line+=" "+arg; want+="|"+arg; break; }
        case 7: { int n=pick("n",3)*130; line="w"; for (int i=0;i<n;++i) line+=" y"; want="w"+num(n)+(n?"y":""); break; }
        case 8: line="m 1 two 3 four 5 -6 false "+arg; if (isInt(arg,v)) want="1two3four5-6F"+num(v); break;
        case 9: line="m 1 two "+arg+" four 5 -6 1 7"; want="1two"+arg+"four5-6T7"; break;
        case 10: { int n=pick("n",6); line="x"; for (int i=0;i<n;++i) line+=" "+(i==0?arg:std::string("8")); bool k=isInt(arg,v); if (n==0) want="zero"; else if (n==1) want="string"; else if (n==2 && k) want="two"; else if (n==3 && k) want="three"; break; }
        case 11: line="o 1 2 "+arg; want="own:"+arg; break;
        case 12: line="o "+arg; break;
        case 13: { int i=pick("n",21); line="z"+num(i); if (i<20) want="z"+num(i); break; }
        case 14: line="z1"+arg; if (arg[0]>='0' && arg[0]<='9') want="z1"+arg; break;
    }
    s.Feed(line); symx_observe_u64(seen.size()); for (auto& x : seen) observe(x);
    if (want.empty()) { symx_assert(seen.empty(),"a wrong command line executed something"); symx_assert(wrong.size()==1,"wrong command handler must be called exactly once"); if (wrong.size()==1) expectEq(wrong[0],line,"wrong command handler got another line"); symx_reach("wrong"); }
    else { symx_assert(wrong.empty(),"wrong command handler called for a valid command"); symx_assert(seen.size()==1,"exactly one command must be executed, once"); if (seen.size()==1) expectEq(seen[0],want,"the command and its arguments"); symx_reach("executed"); }
}
