// C23: a session that reads its lines from a stream.
#include "hcli.h"
#include <cli/clifilesession.h>
using namespace cli;
#ifndef ILEN
#define ILEN 3
#endif
#ifndef LEN
#define LEN 5
#endif
#ifndef SLINES
#define SLINES 3
#endif
struct World {
    std::vector<std::string> lines; int ran=0, exits=0, enters=0; std::unique_ptr<Cli> c; std::ostringstream out;
    World() { SetNoColor(); auto root=std::make_unique<Menu>("R"); root->Insert("a",[this](std::ostream&){ ++ran; lines.push_back("a"); }); root->Insert("q",[this](std::ostream&){ lines.push_back("q"); if (s) s->Exit(); }); auto sub=std::make_unique<Menu>("m"); sub->Insert("b",[](std::ostream&){}); root->Insert(std::move(sub));
        c.reset(new Cli(std::move(root))); c->WrongCommandHandler([this](std::ostream&,const std::string& l){ lines.push_back(l); }); c->EnterAction([this](std::ostream&){ ++enters; }); c->ExitAction([this](std::ostream&){ ++exits; }); }
    CliSession* s=nullptr;
    void run(const std::string& text) {
        std::istringstream in(text); CliFileSession fs(*c,in,out); s=&fs; fs.Start(); observe(out.str()); symx_observe_u64(lines.size()); for (auto& l : lines) observe(l);
        // the same text, line by line
        std::vector<std::string> want; std::string wantOut; char pr='R'; bool gone=false; size_t i=0;
        while (!gone) {
            wantOut+=pr; wantOut+="> "; if (i>=text.size()) break;
            std::string l; while (i<text.size() && text[i]!='\n') l+=text[i++]; if (i<text.size()) ++i;
            std::vector<std::string> w; detail::split(w,l);
            if (w.empty()) continue;
            if (w.size()==1 && w[0]=="exit") gone=true;
            else if (w.size()==1 && w[0]=="help") symx_prune();
            else if (pr=='R' && w.size()==1 && w[0]=="a") want.push_back("a");
            else if (pr=='R' && w.size()==1 && w[0]=="q") { want.push_back("q"); gone=true; }
            else if (pr=='R' && w.size()==1 && w[0]=="m") pr='m';
            else if (pr=='R' && w.size()==2 && w[0]=="m" && w[1]=="b") {}
            else if (pr=='m' && w.size()==1 && w[0]=="b") {}
            else if (pr=='m' && w.size()==1 && (w[0]==".."||w[0]=="R")) pr='R';
            else if (w[0]=="!" || w[0]==".." || w[0]=="R" || (w[0]=="m" && w.size()>1 && (w[1]==".."||w[1]=="R"))) symx_prune();
            else want.push_back(l);
        }
        symx_assert(lines.size()==want.size(),"every line is executed once"); if (lines.size()==want.size()) for (size_t k=0;k<want.size();++k) expectEq(lines[k],want[k],"lines in order");
        expectEq(out.str(),wantOut,"one prompt for every line waited for, none after the exit"); symx_assert(exits==1,"exits once"); symx_assert(enters==1,"enters once");
        symx_reach(gone?"exit":"end of input"); s=nullptr;
    }
};
ENTRY(h_text) { World w; w.run(symString(symx_choice("len",LEN+1),"text")); } // any text
ENTRY(h_script) { // lines, some of them special, with arbitrary bytes around
    World w; int anyUsed=0; std::string t; static const char* const L[]={"a","exit","q","","m","..","zz","\"exit\"","exit x"}; int n=symx_choice("lines",SLINES+1);
    for (int i=0;i<n;++i) { int l=(int)symx_concretize(symx_choice("line",10)); if (l<9) t+=L[l]; else { if (anyUsed++) symx_prune(); t+=symString(2,"x"); } if (i+1<n) t+='\n'; else t+=symString(pick("tail",anyUsed?1:n<SLINES?3:2),"tail"); }
    w.run(t);
}
ENTRY(h_streams) { // invalid streams are refused, nothing is registered
    SetNoColor(); Cli c(std::make_unique<Menu>("R")); std::ostringstream out; std::istringstream in("x\n"); int thrown=0; bool badIn=symx_choice("in",2), badOut=symx_choice("out",2); if (badIn) { std::string x; while (std::getline(in,x)) {} } if (badOut) out.setstate(std::ios::badbit);
    try { CliFileSession s(c,in,out); symx_reach("accepted"); } catch (const std::invalid_argument&) { ++thrown; symx_reach("refused"); }
    symx_assert(thrown==(badIn||badOut?1:0),"invalid streams are refused"); if (!badOut) { Cli::cout() << "x"; expectEq(out.str(),"","a session that was not built gets no output"); }
}
ENTRY(h_big) { // scripts of hundreds of lines, and long ones
    World w; std::string t, x=symString(1,"x"); static const int sizes[]={200,255,256,257,1023,1024,4096}; int how=pick("how",2);
    if (how==0) { int at=pick("at",3); for (int i=0;i<300;++i) { t+=i%5==0?"a":i%7==0?"":"w"+std::to_string(i); if (i==(at==0?0:at==1?150:299)) t+=x; if (i+1<300 || pick("newline",2)) t+='\n'; } }
    else { int n=sizes[pick("size",7)]; t="a\n"+std::string(n,'y')+x+std::string(50,'z')+"\nexit"+std::string(pick("spaces",2)*300,' ')+"\nnot this\n"; }
    w.run(t); symx_reach("big");
}
struct Pieces : std::streambuf { // an input that delivers its text in pieces, and can fail
    std::vector<std::string> p; size_t i=0; int how; std::string cur; explicit Pieces(int h) : how(h) {}
    int underflow() override { if (i>=p.size()) { if (how==1) throw std::runtime_error("device"); return EOF; } cur=p[i++]; setg(&cur[0],&cur[0],&cur[0]+cur.size()); return (unsigned char)cur[0]; }
};
ENTRY(h_input) { // any device behind the stream; handlers that use or break the stream themselves
    SetNoColor(); int ends=pick("ends",2); Pieces buf(ends); std::istream in(&buf); std::ostringstream out; int exits=0, sexits=0; std::vector<std::string> got, want; std::string wantOut, text;
    auto root=std::make_unique<Menu>("R"); root->Insert("a",[&](std::ostream&){ got.push_back("a"); }); root->Insert("read",[&](std::ostream&){ std::string x; std::getline(in,x); got.push_back("read "+x); });
    root->Insert("fail",[&](std::ostream&){ in.setstate(std::ios::failbit); }); root->Insert("end",[&](std::ostream&){ in.setstate(std::ios::eofbit); }); root->Insert("bad",[&](std::ostream&){ in.setstate(std::ios::badbit); }); root->Insert("throw",[&](std::ostream&){ throw 1; });
    Cli c(std::move(root)); c.WrongCommandHandler([&](std::ostream&,const std::string& l){ got.push_back(l); }); c.ExitAction([&](std::ostream&){ ++exits; });
    static const char* const L[]={"a","read","fail","end","bad","throw","exit"}; bool gone=false; int n=SLINES; std::vector<std::string> lines; for (int i=0;i<n;++i) { int k=pick("line",8); lines.push_back(k<7?std::string(L[k]):symString(1,"x")); if (k==7) { char b=lines.back()[0]; symx_assume(b!='\n' && b!='!' && b!=' ' && b!='\t' && b!='a' && b!='"' && b!='\'' && b!='\\'); } }
    bool newline=pick("newline",2); for (int i=0;i<n;++i) { text+=lines[i]; if (i+1<n || newline) text+='\n'; }
    for (int i=0;i<n && !gone;++i) { wantOut+="R> "; const std::string& l=lines[i]; bool last=i+1==n && !newline; // the last line ends with the end of the input
        if (last && ends==1) { gone=true; break; } // the device fails in the middle of the line
        if (l=="a") want.push_back("a"); else if (l=="read") { if (i+1<n && !(i+2==n && !newline && ends==1)) { want.push_back("read "+lines[i+1]); ++i; } else if (i+1<n) { want.push_back("read "+lines[i+1]); gone=true; wantOut+="R> "; } else want.push_back("read "); }
        else if (l=="fail"||l=="end"||l=="bad") { wantOut+="R> "; gone=true; } else if (l=="throw") wantOut+="Cli. Unknown exception caught handling command line \"throw\"\n"; else if (l=="exit") gone=true; else want.push_back(l); }
    if (!gone) wantOut+="R> ";
    int cut=pick("cut",3); if (cut==0) buf.p={text}; else if (cut==1) for (char ch : text) buf.p.push_back(std::string(1,ch)); else { size_t h=text.size()/2; buf.p={text.substr(0,h),text.substr(h)}; }
    { CliFileSession s(c,in,out); s.Start(); }
    observe(out.str()); symx_observe_u64(got.size()); for (auto& l : got) observe(l);
    symx_assert(got.size()==want.size(),"every line is executed once, until the end of the input"); if (got.size()==want.size()) for (size_t k=0;k<want.size();++k) expectEq(got[k],want[k],"lines in order");
    expectEq(out.str(),wantOut,"one prompt for every line waited for"); symx_assert(exits==1,"exits once"); symx_reach("ended");
}
ENTRY(h_nested) { // a command that runs another session over another stream, on the same Cli or on its own one; and a session after another on the same stream
    SetNoColor(); std::vector<std::string> got; std::string inner=symString(pick("inner",ILEN+1),"inner"), rest=symString(1,"rest"); for (char ch : inner) symx_assume(ch!='!'&&ch!='"'&&ch!='\''&&ch!='\\'&&ch!='s'&&ch!='R'); symx_assume(rest[0]!='!'&&rest[0]!='"'&&rest[0]!='\''&&rest[0]!='\\'&&rest[0]!='s'&&rest[0]!='\n'&&rest[0]!=' '&&rest[0]!='\t'&&rest[0]!='R');
    int how=pick("how",3); bool innerExit=pick("exit",2); std::ostringstream out, out2; int exits=0, enters=0; std::unique_ptr<Cli> other(new Cli(std::make_unique<Menu>("O"))); auto wrong=[&](std::ostream&,const std::string& l){ got.push_back(l); }; other->WrongCommandHandler(wrong);
    auto root=std::make_unique<Menu>("R"); Cli* self=nullptr; std::istringstream in2(inner+(innerExit?"\nexit\nnever":"")); int depth=0;
    std::istringstream in("s\n"+rest+"\nexit\nafter\n");
    root->Insert("s",[&](std::ostream&){ got.push_back("s"); if (depth++) return; CliFileSession fs(how==0?*self:*other,how==2?static_cast<std::istream&>(in):in2,out2); fs.Start(); got.push_back("end"); });
    Cli c(std::move(root)); self=&c; c.WrongCommandHandler(wrong); c.ExitAction([&](std::ostream&){ ++exits; }); c.EnterAction([&](std::ostream&){ ++enters; });
    std::vector<std::string> want{"s"}; std::string wantOut="R> ", wantOut2, p=how==0?"R> ":"O> "; auto blank=[](const std::string& l) { for (char ch : l) if (ch!=' '&&ch!='\t') return false; return true; };
    if (how==2) { wantOut2=p+p; want.push_back(rest); want.push_back("end"); want.push_back("after"); wantOut+="R> R> "; } // the inner session takes its lines, the outer one goes on after them
    else { wantOut2=p; std::string cur; size_t i=0; for (;i<=inner.size();++i) { if (i==inner.size() || inner[i]=='\n') { if (i==inner.size() && cur.empty() && !innerExit) break; if (!blank(cur)) want.push_back(cur); wantOut2+=p; cur.clear(); } else cur+=inner[i]; } want.push_back("end"); want.push_back(rest); wantOut+="R> R> "; }
    { CliFileSession s(c,in,out); s.Start(); symx_assert(!in.fail() || how==2,"the input is left where the session ended"); }
    std::string left; std::getline(in,left); if (how!=2) { expectEq(left,"after","the lines after the exit are left in the stream"); symx_reach("left"); }
    observe(out.str()); observe(out2.str()); symx_observe_u64(got.size()); symx_assert(got.size()==want.size(),"every line is executed once"); if (got.size()==want.size()) for (size_t k=0;k<want.size();++k) expectEq(got[k],want[k],"lines in order");
    expectEq(out.str(),wantOut,"the prompts of the outer session"); expectEq(out2.str(),wantOut2,"the prompts of the inner session"); symx_assert(exits==1+(how==0) && enters==exits,"each session enters and exits once"); symx_reach(how==0?"same cli":how==1?"another cli":"same stream");
    if (how!=2) { std::ostringstream out3; in.str("y\nexit\n"); in.clear(); CliFileSession s3(c,in,out3); s3.Start(); expectEq(out3.str(),"R> R> ","a session after another"); symx_assert(got.size()==want.size()+1 && got.back()=="y","a session after another"); symx_reach("again"); }
}
ENTRY(h_nested_line) { // a command that runs another file session and then throws, or is not found: the line reported is its own
    SetNoColor(); std::string arg=symString(ILEN-1,"argument"), inner=symString(1,"inner"); for (char ch : arg+inner) symx_assume(ch!='!'&&ch!='"'&&ch!='\''&&ch!='\\'&&ch!='\n'&&ch!=' '&&ch!='\t'&&ch!='s'&&ch!='x'); bool own=pick("handlers",2); int n=pick("n",3), kind=pick("kind",3); bool longer=pick("longer",2);
    auto root=std::make_unique<Menu>("Root"); Cli* self=nullptr; std::string l1="s "+arg+(longer?std::string(40,'k'):""), got; int calls=0, wrong=0; std::ostringstream out, out2; std::string inText; for (int i=0;i<n;++i) inText+=(i?"x ":"")+inner+(i?"\n":"\nx "+inner+"\n");
    root->Insert("s",[&](std::ostream&, const std::string&){ std::istringstream in2(inText); CliFileSession fs(*self,in2,out2); fs.Start(); if (kind==1) throw std::runtime_error("e"); if (kind==2) throw 7; }); root->Insert("x",[&](std::ostream&, const std::string&){ throw std::runtime_error("inner"); });
    Cli c(std::move(root)); self=&c; std::vector<std::string> errs; if (own) c.StdExceptionHandler([&](std::ostream& o,const std::string& l,const std::exception&){ ++calls; if (&o==&out) got=l; else errs.push_back(l); }); c.WrongCommandHandler([&](std::ostream& o,const std::string&){ ++wrong; symx_assert(&o==&out2,"the stream of the inner session"); });
    std::istringstream in(l1+"\n"); { CliFileSession s(c,in,out); s.Start(); } std::string t=out.str(); observe(t); observe(got); 
    if (kind==1 && own) { expectEq(got,l1,"the line whose command threw"); symx_reach("line"); } else if (kind==1) expectEq(t,"Root> e\nRoot> ","the exception on the output of the outer session");
    else if (kind==2) { bool names=false; for (size_t i=0;i+l1.size()<=t.size()&&!names;++i) names=memcmp(t.data()+i,l1.data(),l1.size())==0; symx_assert(names,"the message names the line"); symx_reach("unknown"); } else expectEq(t,"Root> Root> ","prompts");
    int xs=n==0?0:n==1?1:1+(n-1), ws=n==0?0:1; (void)xs; symx_assert(wrong==ws,"wrong lines of the inner session"); if (own) for (auto& e : errs) expectEq(e,"x "+inner,"the line of the inner session");
}
