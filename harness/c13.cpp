// C13: the edited line, the cursor and the screen.
#include "hkeys.h"
using namespace cli; using namespace cli::detail;
#ifndef KEYS
#define KEYS 4
#endif
#ifndef LLEN
#define LLEN 4
#endif
#ifndef STEPS
#define STEPS 2
#endif
struct Editor { std::string line; size_t pos=0; // an ideal line editor
    void type(char c) { line.insert(pos,1,c); ++pos; } void back() { if (pos) { line.erase(pos-1,1); --pos; } } void del() { if (pos<line.size()) line.erase(pos,1); }
    void left() { if (pos) --pos; } void right() { if (pos<line.size()) ++pos; } void home() { pos=0; } void end() { pos=line.size(); } void set(const std::string& s) { line=s; pos=s.size(); } };
static char printableByte(const char* n) { std::string s=symString(1,n); printable(s); return s[0]; }
static void expectScreen(const Screen& scr, const std::string& prompt, const Editor& e) {
    std::string row=scr.rows[scr.r], want=prompt+e.line; size_t n=std::max(row.size(),want.size()); row.resize(n,' '); want.resize(n,' '); observe(row); symx_observe_u64(scr.c);
    expectEq(row,want,"the line on the screen"); symx_assert(scr.c==prompt.size()+e.pos,"the cursor column"); symx_assert(!scr.weird,"malformed terminal output");
}
struct Direct { // the terminal alone, any printable byte
    std::ostringstream out; Terminal<TelnetScreen> t; Screen scr; Editor e; std::string prompt="> ";
    Direct() : t(out) { scr.feed(prompt); }
    void refresh() { scr.feed(out.str()); out.str(""); }
    void check() { refresh(); expectScreen(scr,prompt,e); expectEq(t.GetLine(),e.line,"the edited line"); }
    Symbol press(KeyType k, char c=' ') { auto r=t.Keypressed(std::make_pair(k,c)); if (r.first!=Symbol::command) symx_assert(r.second.empty(),"a key that is not return submits something"); return r.first; }
    void any() {
        int k=symx_choice("key",12);
        switch (k) {
            case 0: { char c=printableByte("c"); symx_assert(press(KeyType::ascii,c)==Symbol::nothing,"symbol"); e.type(c); symx_reach("typed"); break; }
            case 1: symx_assert(press(KeyType::backspace)==Symbol::nothing,"symbol"); e.back(); break;
            case 2: symx_assert(press(KeyType::canc)==Symbol::nothing,"symbol"); e.del(); break;
            case 3: symx_assert(press(KeyType::left)==Symbol::nothing,"symbol"); e.left(); break;
            case 4: symx_assert(press(KeyType::right)==Symbol::nothing,"symbol"); e.right(); break;
            case 5: symx_assert(press(KeyType::home)==Symbol::nothing,"symbol"); e.home(); break;
            case 6: symx_assert(press(KeyType::end)==Symbol::nothing,"symbol"); e.end(); break;
            case 7: { auto r=t.Keypressed(std::make_pair(KeyType::ret,' ')); symx_assert(r.first==Symbol::command,"return submits the line"); observe(r.second); expectEq(r.second,e.line,"the submitted line"); refresh(); symx_assert(scr.c==0,"return goes to a new row"); scr.feed(prompt); e.set(""); symx_reach("submitted"); break; }
            case 8: { std::string s=symString(symx_choice("setlen",LLEN+1),"s"); printable(s); t.SetLine(s); e.set(s); break; }
            case 9: { const KeyType ks[]={KeyType::up,KeyType::down,KeyType::eof,KeyType::clear}; const Symbol ss[]={Symbol::up,Symbol::down,Symbol::eof,Symbol::clear}; int i=symx_choice("which",4); symx_assert(press(ks[i])==ss[i],"key symbol"); break; }
            case 10: symx_assert(press(KeyType::ignored,'q')==Symbol::nothing,"symbol"); break;
            default: symx_assert(press(KeyType::ascii,'\t')==Symbol::tab,"tab symbol"); break;
        }
        check();
    }
};
static void color() { if (symx_choice("color",2)) SetColor(); else SetNoColor(); }
ENTRY(h_keys) { Direct d; color(); for (int k=0;k<KEYS;++k) d.any(); } // every sequence of keys from the start
ENTRY(h_step) { // from every line and cursor position up to LLEN: one inductive step (and some more)
    Direct d; color(); int n=symx_choice("len",LLEN+1); for (int i=0;i<n;++i) { char c=printableByte("c"); d.press(KeyType::ascii,c); d.e.type(c); }
    int l=symx_choice("left",n+1); for (int i=0;i<l;++i) { d.press(KeyType::left); d.e.left(); }
    d.check(); for (int k=0;k<STEPS;++k) d.any();
}
ENTRY(h_session) { // through a whole session: prompt, return, clear screen, recall
    color(); KeyWorld w(std::make_unique<Menu>("R")); Editor e; std::vector<std::string> done; std::string last;
    for (int k=0;k<KEYS;++k) {
        int op=symx_choice("key",8);
        if (op==0) { char c=printableByte("c"); symx_assume(c!=' '&&c!='!'&&c!='"'&&c!='\''&&c!='\\'); w.key(KeyType::ascii,c); e.type(c); }
        else if (op==1) { w.key(KeyType::backspace); e.back(); } else if (op==2) { w.key(KeyType::left); e.left(); } else if (op==3) { w.key(KeyType::canc); e.del(); } else if (op==4) { w.key(KeyType::home); e.home(); }
        else if (op==5) { size_t r=w.scr.r; w.key(KeyType::clear); e.end(); symx_assert(w.scr.r==0,"a cleared screen starts at the top"); (void)r; symx_reach("cleared"); }
        else if (op==6) { size_t n=w.entered.size(); if (e.line.size()>3) symx_prune(); w.key(KeyType::ret); if (!e.line.empty()) { symx_assert(w.entered.size()==n+1,"executed once"); if (w.entered.size()==n+1) expectEq(w.entered[n],e.line,"the executed line is the one shown"); last=e.line; symx_reach("executed"); } else symx_assert(w.entered.size()==n,"an empty line executed"); e.set(""); symx_assert(w.kb.deactivations==w.kb.activations && w.kb.activations>0,"input is inactive exactly while a command runs"); }
        else { if (last.empty() || !e.line.empty()) symx_prune(); w.key(KeyType::up); e.set(last); w.key(KeyType::down); e.set(""); w.key(KeyType::up); e.set(last); symx_reach("recalled"); w.key(KeyType::down); e.set(""); }
        expectScreen(w.scr,"R> ",e);
    }
}
ENTRY(h_long) { // a line of hundreds of characters, edited in its middle, left and recalled
    SetNoColor(); Direct d; int n=250+150*pick("size",2); for (int i=0;i<n;++i) { char c=(char)('a'+i%26); d.press(KeyType::ascii,c); d.e.type(c); } d.check();
    static const int at[]={0,1,100,127,128,129,200,249}; int m=at[pick("at",8)]; for (int i=0;i<m;++i) { d.press(KeyType::left); d.e.left(); } d.check();
    char c=printableByte("c"); d.press(KeyType::ascii,c); d.e.type(c); d.check();
    switch (pick("edit",5)) {
        case 0: d.press(KeyType::canc); d.e.del(); break; case 1: d.press(KeyType::backspace); d.e.back(); d.check(); d.press(KeyType::backspace); d.e.back(); break; case 2: d.press(KeyType::home); d.e.home(); d.check(); d.press(KeyType::canc); d.e.del(); break;
        case 3: { std::string s(300-n/2,'q'); s+=c; d.t.SetLine(s); d.e.set(s); break; } default: d.press(KeyType::right); d.e.right(); d.check(); d.press(KeyType::end); d.e.end(); break; }
    d.check(); char c2=printableByte("c2"); d.press(KeyType::ascii,c2); d.e.type(c2); d.check(); auto r=d.t.Keypressed(std::make_pair(KeyType::ret,' ')); expectEq(r.second,d.e.line,"the submitted line"); symx_reach("long line");
}
ENTRY(h_many) { // a session of hundreds of lines
    SetNoColor(); KeyWorld w(std::make_unique<Menu>("R"),300); std::string last; char c=printableByte("c"); symx_assume(c!=' '&&c!='!'&&c!='"'&&c!='\''&&c!='\\');
    for (int i=0;i<280;++i) { std::string l="w"+std::to_string(i); for (char x : l) w.key(KeyType::ascii,x); w.key(KeyType::left); w.key(KeyType::ascii,c); l.insert(l.size()-1,1,c); w.key(KeyType::ret); symx_assert((int)w.entered.size()==i+1,"executed once"); expectEq(w.entered.back(),l,"the executed line is the one shown"); last=l; }
    Editor e; int up=pick("up",3); static const int ups[]={1,130,280}; for (int i=0;i<ups[up];++i) w.key(KeyType::up); std::string l="w"+std::to_string(280-ups[up]); l.insert(l.size()-1,1,c); e.set(l); expectScreen(w.scr,"R> ",e); w.key(KeyType::ret); expectEq(w.entered.back(),l,"the recalled line"); symx_reach("recalled");
}
ENTRY(h_two) { // two terminals, the keys in any order: each one has its own line
    SetNoColor(); Direct d[2]; for (int k=0;k<KEYS+1;++k) { int i=k==KEYS?1:pick("terminal",2); Direct& t=d[i];
        switch (pick("key",6)) {
            case 0: { char c=printableByte("c"); symx_assert(t.press(KeyType::ascii,c)==Symbol::nothing,"symbol"); t.e.type(c); symx_reach("typed"); break; } case 1: t.press(KeyType::backspace); t.e.back(); break; case 2: t.press(KeyType::left); t.e.left(); break; case 3: t.press(KeyType::home); t.e.home(); break;
            case 4: { auto r=t.t.Keypressed(std::make_pair(KeyType::ret,' ')); symx_assert(r.first==Symbol::command,"return submits the line"); expectEq(r.second,t.e.line,"the submitted line"); t.refresh(); t.scr.feed(t.prompt); t.e.set(""); symx_reach("submitted"); break; }
            default: { std::string s="xy"; t.t.SetLine(s); t.e.set(s); break; } }
        d[0].check(); d[1].check(); }
}
