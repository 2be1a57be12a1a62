// C01: tokenisation of a command line.
#include "hcommon.h"
#include <cli/detail/split.h>
using namespace cli::detail;
#ifndef LEN
#define LEN 5
#endif
#ifndef ALEN
#define ALEN 2
#endif
#ifndef QLEN
#define QLEN 3
#endif
// Independent statement of the documented grammar (recursive descent over the line):
//   line := (blank | bang | quoted | word)*
//   bang: '!' outside quotes is a token of its own
//   quoted: opens with " or ', ends at the next unescaped same quote (or end of line)
//   word: run of other characters; backslash escapes the next character (the backslash disappears only before " ' \)
//   empty tokens are dropped.
struct Oracle {
    const std::string& in; size_t i=0; std::vector<std::string> out;
    explicit Oracle(const std::string& s) : in(s) {}
    bool more() const { return i<in.size(); }
    static bool blank(char c) { return c==' '||c=='\t'||c=='\n'; }
    void esc(std::string& t) { // at a backslash
        ++i; if (!more()) return;
        char c=in[i++];
        if (!(c=='"'||c=='\''||c=='\\')) t+='\\';
        t+=c;
    }
    void run() {
        while (more()) {
            char c=in[i];
            if (blank(c)) { ++i; continue; }
            std::string t;
            if (c=='!') { ++i; t="!"; }
            else if (c=='"'||c=='\'') { char q=c; ++i; while (more() && in[i]!=q) { if (in[i]=='\\') esc(t); else t+=in[i++]; } if (more()) ++i; }
            else { while (more() && !blank(in[i]) && in[i]!='!' && in[i]!='"' && in[i]!='\'') { if (in[i]=='\\') esc(t); else t+=in[i++]; } }
            if (!t.empty()) out.push_back(t);
        }
    }
};
static void check(const std::string& line) {
    std::vector<std::string> got{"stale"};
    split(got,line);
    Oracle o(line); o.run();
    symx_observe_u64(got.size());
    for (auto& t : got) observe(t);
    symx_assert(got.size()==o.out.size(),"split: wrong number of tokens");
    if (got.size()==o.out.size()) for (size_t k=0;k<got.size();++k) expectEq(got[k],o.out[k],"split: token differs from the documented grammar");
    if (got.empty()) symx_reach("no tokens");
    if (got.size()>=2) symx_reach("several tokens");
}
ENTRY(h_grammar) { // every byte string of length <= LEN
    int n=symx_choice("len",LEN+1);
    check(symString(n,"line"));
}
ENTRY(h_quote) { // any list of two non-empty arguments, quoted, comes back verbatim, whatever quote character is used
    int n1=1+symx_choice("n1",QLEN), n2=1+symx_choice("n2",2);
    char q = symx_choice("quote",2) ? '"' : '\'';
    std::string a=symString(n1,"a"), b=symString(n2,"b");
    auto quote=[&](const std::string& s) { std::string r(1,q); for (char c : s) { if (c==q||c=='\\') r+='\\'; r+=c; } r+=q; return r; };
    std::string line=quote(a)+" "+quote(b);
    std::vector<std::string> got; split(got,line);
    symx_observe_u64(got.size());
    for (auto& t : got) observe(t);
    symx_assert(got.size()==2,"quoted arguments: count changed");
    if (got.size()==2) { expectEq(got[0],a,"quoted argument 1 altered"); expectEq(got[1],b,"quoted argument 2 altered"); symx_reach("round trip"); }
}
ENTRY(h_scale) { // long words, many words: an arbitrary byte anywhere in a long line
    static const int lens[]={14,15,16,17,31,32,63,64,127,128,255,256,257,511,512,1023,1024,4096};
    int n=lens[pick("len",18)], style=pick("style",4), where=pick("where",4), second=pick("second",2); std::string t(n,'w'), sym=symString(1,"byte");
    if (style==3) for (size_t i=3;i<t.size();i+=4) t[i]=' ';                     // many words
    size_t at= where==0?0: where==1?t.size()/2: where==2?t.size()-1: t.size(); t.insert(at,sym); if (where==1) t.insert(at+1,"\\"+symString(1,"escaped"));
    if (style==1) t="\""+t+"\""; else if (style==2) t="'"+t+"'";
    if (second) t="c "+t+" z!";
    check(t);
}
ENTRY(h_again) { // one line after another, into the same vector or not: nothing stays behind
    std::vector<std::string> l{symString(pick("n1",ALEN+1),"l1"),symString(pick("n2",ALEN+1),"l2")}; l.push_back(l[0]); bool same=pick("same",2); std::vector<std::string> kept;
    for (size_t k=0;k<l.size();++k) {
        std::vector<std::string> other; std::vector<std::string>& got=same?kept:other; std::string before=l[k]; split(got,l[k]); Oracle o(before); o.run(); expectEq(l[k],before,"the line itself is altered");
        symx_assert(got.size()==o.out.size(),"split: wrong number of tokens"); if (got.size()==o.out.size()) for (size_t i=0;i<got.size();++i) expectEq(got[i],o.out[i],"split: token differs from the documented grammar");
        symx_observe_u64(got.size()); if (k && !got.empty()) symx_reach("several lines");
    }
}
