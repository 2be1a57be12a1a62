// C14: the local keyboard (terminal on descriptor 0, reader thread, self pipe) over the model of the operating system.
#include "hcommon.h"
#include "posix_model.h"
#include <sstream>
#include <memory>
#include <termios.h>
#include <cli/loopscheduler.h>
#include <cli/clilocalsession.h>
#ifndef BYTES
#define BYTES 3
#endif
#ifndef OPS
#define OPS 3
#endif
using namespace cli; using namespace cli::detail;
typedef std::vector<std::pair<KeyType,char>> Ks;
static const unsigned RAW=ICANON|ECHO;
struct Decoder { // the keys encoded by the bytes of a terminal
    enum S { plain, esc, csi, csi3, skip } s=plain; Ks keys;
    void key(KeyType t, char c=' ') { keys.push_back(std::make_pair(t,c)); s=plain; }
    void unknown(unsigned char c) { if (c>=32 && c<64) s=skip; else key(KeyType::ignored); }
    void byte(unsigned char c) {
        switch (s) {
            case plain: if (c==4) key(KeyType::eof); else if (c==8 || c==127) key(KeyType::backspace); else if (c==10) key(KeyType::ret); else if (c==12) key(KeyType::clear); else if (c==27) s=esc; else key(KeyType::ascii,(char)c); break;
            case esc: if (c=='[') s=csi; else key(KeyType::ignored); break;
            case csi: switch (c) { case 'A': key(KeyType::up); break; case 'B': key(KeyType::down); break; case 'C': key(KeyType::right); break; case 'D': key(KeyType::left); break; case 'F': key(KeyType::end); break; case 'H': key(KeyType::home); break; case '3': s=csi3; break; default: unknown(c); } break;
            case csi3: if (c=='~') key(KeyType::canc); else unknown(c); break;
            case skip: unknown(c); break;
        }
    }
};
struct World {
    LoopScheduler sch; std::unique_ptr<LinuxKeyboard> kb; Ks got, want; unsigned l0,i0; bool active=true; Decoder d; int tid; int atOff=-1;
    explicit World(bool symbolicTerm) { pm.tty=true; l0=symbolicTerm?(unsigned)symx_u64("lflag",32):(ICANON|ECHO|ISIG); i0=symbolicTerm?(unsigned)symx_u64("iflag",32):0; pm.lflag=l0; pm.iflag=i0; pm.oflag=5; pm.cflag=7; }
    void type(const std::string& s) { for (char c : s) { symx_assume((unsigned char)c!=255); d.byte((unsigned char)c); } pmType((const unsigned char*)s.data(),(int)s.size()); want=d.keys; }
    void endOfInput(bool error) { if (error) pm.err=true; else pm.eof=true; want.push_back(std::make_pair(KeyType::eof,' ')); }
    void start() { tid=symx_tid(); kb.reset(new LinuxKeyboard(sch)); InputDevice& dev=*kb; dev.Register([this](std::pair<KeyType,char> k) { symx_assert(symx_tid()==tid,"keys are delivered by the scheduler"); got.push_back(k); }); }
    void term() { // what the terminal settings have to be
        symx_assert(pm.lflag==(active?l0&~RAW:l0),active?"while reading: no echo, no line buffering, nothing else changed":"the terminal settings are restored"); symx_assert(pm.iflag==i0 && pm.oflag==5 && pm.cflag==7,"no other setting is changed");
    }
    void check(bool complete) {
        symx_assert(got.size()<=want.size(),"no key is reported twice or invented"); if (complete) symx_assert(got.size()==want.size(),"every key is reported");
        for (size_t i=0;i<got.size() && i<want.size();++i) { symx_assert(got[i].first==want[i].first,"the keys typed, in order"); symx_assert(want[i].first!=KeyType::ascii || got[i].second==want[i].second,"the character typed"); }
    }
    int consumed() { Decoder c; int n=pmPos(); for (int i=0;i<n;++i) c.byte(pm.in[i]); return (int)c.keys.size(); }
    void off() { kb->DeactivateInput(); active=false; atOff=consumed(); }
    void quiet() { if (!active && atOff>=0) symx_assert(consumed()<=atOff+1,"while deactivated no key is taken but the one being waited for"); }
    void on() { quiet(); kb->ActivateInput(); active=true; }
    void destroy() {
        quiet();
        kb.reset(); active=false; term(); size_t n=got.size();
        int left=0; while (sch.PollOne()) ++left;
        symx_assert(got.size()==n,"nothing is delivered after the destruction"); symx_assert(n+left<=want.size(),"no key is posted twice or invented");
        symx_assert(pmOpen()==0 && !pm.badClose,"every descriptor is closed once"); symx_assert(!pm.sigpipe,"no broken pipe");
        check(false);
    }
    void obs() { for (auto& k : got) { symx_observe_u64((unsigned)k.first); if (k.first==KeyType::ascii) symx_observe_u64((unsigned char)k.second); } }
};
// every byte sequence, then end of file, a read error or silence; the keyboard is destroyed when all keys have been delivered
ENTRY(h_bytes) {
    World w(true); pm.eintr=0; int n=pick("n",BYTES+1), how=pick("end",3); w.type(symString(n,"b")); if (how) w.endOfInput(how==2);
    w.start(); w.term();
    while (w.got.size()<w.want.size()) w.sch.ExecOne();
    w.check(true); w.destroy(); w.obs();
    symx_reach(how==0?"silence":how==1?"end of file":"read error");
}
// every key encoding, signals interrupting the waits
static const char* const seqs[]={"a","\x7f","\b","\n","\f","\x1b[A","\x1b[B","\x1b[C","\x1b[D","\x1b[F","\x1b[H","\x1b[3~","\x1b[5~","\x1b[1;5C","\x1b[P","\x1bx","\x1b[33~","\x04","\t"};
ENTRY(h_keys) {
    World w(false); pm.eintr=1; std::string s; for (int i=0;i<2;++i) s+=seqs[pick("key",(int)(sizeof seqs/sizeof *seqs))]; int cut=pick("cut",2); if (cut) s.pop_back();
    w.type(s); bool eof=pick("eof",2); if (eof) w.endOfInput(false);
    w.start(); while (w.got.size()<w.want.size()) w.sch.ExecOne();
    w.check(true); w.destroy(); symx_reach(eof?"eof":"no eof");
}
// the reader thread against activation, deactivation, changes of the terminal and destruction
ENTRY(h_life) {
    World w(false); pm.eintr=pick("eintr",2); static const char* const texts[]={"","abc","\x1b[A","\x1b["}; w.type(texts[pick("text",4)]); if (pick("eof",2)) w.endOfInput(false);
    w.start(); w.term();
    for (int i=0;i<OPS;++i) {
        switch (pick("op",5)) {
            case 0: w.off(); symx_reach("deactivated"); break;
            case 1: w.on(); break;
            case 2: w.sch.PollOne(); break;
            case 3: if (w.active) symx_prune(); w.l0=ISIG|((i&1)?ECHO:TOSTOP); pm.lflag=w.l0; symx_reach("changed"); break; // a program run by a command
            case 4: { // everything typed is delivered while active
                if (!w.active) symx_prune(); while (w.got.size()<w.want.size()) w.sch.ExecOne(); w.check(true); symx_reach("all delivered"); break; }
        }
        w.term(); w.check(false);
    }
    w.destroy(); w.obs(); symx_reach("destroyed");
}
// keys typed late, when the reader is already waiting
ENTRY(h_late) {
    World w(false); pm.eintr=1; w.type(""); w.start();
    w.type("x"); w.sch.ExecOne(); w.check(true);
    bool off=pick("deactivate",2); if (off) { w.off(); w.term(); }
    w.type("bc\x1b["); if (off) { w.on(); } w.type("A");
    for (int i=0;i<3;++i) w.sch.ExecOne(); w.check(true); w.term();
    w.destroy(); symx_reach("late");
}
// standard input is not a terminal
ENTRY(h_notty) { World w(false); pm.tty=false; w.active=false; w.type("ab"); w.endOfInput(false); w.start(); w.term(); while (w.got.size()<w.want.size()) w.sch.ExecOne(); w.check(true); w.destroy(); symx_reach("not a terminal"); }
// a whole local session: lines run in the scheduler's thread, end of file exits, it can be destroyed at any time
ENTRY(h_session) {
    World w(false); pm.eintr=0; int ran=0, exits=0, wrong=0; int tid=symx_tid();
    auto m=std::unique_ptr<Menu>(new Menu("r")); m->Insert("a",[&](std::ostream& o){ symx_assert(symx_tid()==tid,"commands run in the thread of the scheduler"); symx_assert(pm.lflag==w.l0,"the terminal settings are restored while a command runs"); ++ran; o << "A\n"; });
    Cli c(std::move(m)); c.ExitAction([&](std::ostream&){ ++exits; w.sch.Stop(); }); c.WrongCommandHandler([&](std::ostream&, const std::string&){ ++wrong; });
    int how=pick("text",6); static const char* const texts[]={"a\n","a\na\n","exit\n","\x04","zz\na","a"}; static const int runs[]={1,2,0,0,0,0}; w.type(texts[how]); bool eof=pick("eof",2); if (eof) w.endOfInput(false);
    std::ostringstream out; SetNoColor();
    { std::unique_ptr<CliLocalTerminalSession> s(new CliLocalTerminalSession(c,w.sch,out)); s->ExitAction([&](std::ostream&){ symx_assert(exits==0,"the session's exit action runs before the global one"); });
      bool exitsAlone = eof || how==2 || how==3; int polls=pick("polls",3);
      if (exitsAlone && polls==2) { w.sch.Run(); symx_assert(exits==1 && ran==runs[how] && wrong==(how==4),"every line is executed, then the session exits once"); symx_reach("ran to the end"); }
      else for (int i=0;i<polls;++i) w.sch.PollOne();
    }
    symx_assert(pm.lflag==w.l0 && pmOpen()==0,"the terminal is restored"); size_t shown=out.str().size(); int r=ran;
    while (w.sch.PollOne()) {}
    symx_assert(ran==r && out.str().size()==shown,"a destroyed session does nothing"); symx_assert(ran<=runs[how] && exits<=1,"no command runs twice"); symx_observe_u64(ran); symx_observe_u64(exits); symx_observe(out.str().data(),shown);
    symx_reach("session destroyed");
}
// hundreds of keys at once, the scheduler slower than the reader
ENTRY(h_long) {
    World w(false); pm.eintr=0; std::string s; int at=pick("at",4); static const int ats[]={0,100,255,299}; for (int i=0;i<300;++i) { if (i==ats[at]) { s+=symString(1,"b"); s+="\x1b[A"; } s+=(char)('a'+i%26); if (i%50==49) s+="\x1b[3~"; } w.type(s); bool eof=pick("eof",2); if (eof) w.endOfInput(false);
    w.start(); while (w.got.size()<w.want.size()) w.sch.ExecOne(); w.check(true); w.destroy(); symx_reach("long");
}
// the keyboard made again after it was destroyed: the terminal is taken and restored each time, the remaining keys are read
ENTRY(h_again) {
    World w(false); pm.eintr=0; std::string b=symString(1,"b"); w.type("a"+b); int n=pick("first",3); w.start(); w.term(); for (int i=0;i<n && i<(int)w.want.size();++i) w.sch.ExecOne(); size_t taken=0;
    { w.quiet(); w.kb.reset(); w.active=false; w.term(); size_t g=w.got.size(); while (w.sch.PollOne()) {} symx_assert(w.got.size()==g,"nothing is delivered after the destruction"); symx_assert(pmOpen()==0 && !pm.badClose && !pm.sigpipe,"every descriptor is closed once"); taken=w.consumed(); if (pmPos()!=(int)taken) symx_prune(); }
    unsigned l1=pick("changed",2)?ISIG|ICANON:w.l0; w.l0=l1; pm.lflag=l1; w.active=true; w.atOff=-1; w.check(false);
    // from now on: what was not read, and what is typed now
    Ks rest; w.type("c\x1b[A"); rest.assign(w.want.begin()+taken,w.want.end()); w.want=rest; w.got.clear(); w.start(); w.term(); while (w.got.size()<w.want.size()) w.sch.ExecOne(); w.check(true);
    w.kb.reset(); w.active=false; w.term(); size_t g=w.got.size(); while (w.sch.PollOne()) {} symx_assert(w.got.size()==g,"nothing is delivered after the destruction"); symx_assert(pmOpen()==0 && !pm.badClose && !pm.sigpipe,"every descriptor is closed once"); w.obs(); symx_reach("again");
}

// no descriptors left, or descriptors that select() cannot handle: the construction fails and leaves nothing behind, or the keyboard works
ENTRY(h_descriptors) {
    World w(false); pm.nopipe=pick("none",2); pm.base=pm.nopipe?0:1022+pick("first",4); int first=pm.base; w.type("a");
    bool failed=false; try { w.start(); } catch (const std::exception&) { failed=true; }
    if (failed) { w.active=false; w.term(); symx_assert(pmOpen()==0 && !pm.badClose,"no descriptor is left open"); symx_assert(pmPos()==0,"no key is taken"); }
    else { w.term(); while (w.got.size()<w.want.size()) w.sch.ExecOne(); w.check(true); w.destroy(); }
    symx_assert(first!=1022 || !failed,"the descriptors below the limit are good");
    symx_reach(first==0?"no descriptors":first>1022?"high descriptors":"last descriptor");
}
