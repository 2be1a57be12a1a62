// C26: the code of the user (commands, actions, output) runs in the thread that runs the scheduler only, inside its tasks, one at a time; with the scheduler of the library or with one of the user.
#include "hcommon.h"
#include "posix_model.h"
#include <memory>
#include <deque>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <termios.h>
#include <cli/loopscheduler.h>
#include <cli/clilocalsession.h>
#ifndef TEXTS
#define TEXTS 4
#endif
using namespace cli;
static int owner=-1, depth=0, outsideOk=0; // the thread in charge; inside a task or in the construction of the session
static void here(const char* what) { symx_assert(symx_tid()==owner,what); symx_assert(depth>0 || outsideOk,"only inside the tasks of the scheduler"); }
struct Out : std::streambuf { std::string s; std::streamsize xsputn(const char* p, std::streamsize n) override { here("output is written by the scheduler's thread"); s.append(p,(size_t)n); return n; } int overflow(int c) override { here("output is written by the scheduler's thread"); if (c!=-1) s+=(char)c; return c; } int sync() override { here("output is flushed by the scheduler's thread"); return 0; } };
// a scheduler as a user would write it: a queue with a lock; tasks run by whoever calls run()
struct Mine : Scheduler { std::mutex m; std::condition_variable cv; std::deque<std::function<void()>> q; bool stop=false; int posts=0;
    void Post(const std::function<void()>& f) override { std::lock_guard<std::mutex> l(m); q.push_back(f); ++posts; cv.notify_one(); }
    bool one(bool wait) { std::function<void()> f; { std::unique_lock<std::mutex> l(m); if (wait) cv.wait(l,[&]{ return !q.empty() || stop; }); if (q.empty()) return false; f=q.front(); q.pop_front(); } symx_assert(depth==0,"tasks run one at a time"); ++depth; f(); --depth; return true; }
    void run() { while (!stop) one(true); } // stop is set by a task
};
struct Looped : LoopScheduler { void Post(const std::function<void()>& f) override { LoopScheduler::Post([f]{ symx_assert(depth==0,"tasks run one at a time"); ++depth; f(); --depth; }); } }; // notes when a task runs
struct Fixture {
    int inside=0, ran=0, exits=0, wrong=0, posted=0; std::vector<std::string> order; std::unique_ptr<Cli> c; Out buf; std::ostream out{&buf}; std::function<void()> onExit; Scheduler* sch=nullptr; bool nested=false;
    void user(const std::string& what) { here("the code of the user runs in the scheduler's thread"); symx_assert(inside==0,"one at a time"); ++inside; order.push_back(what); out << what << '\n'; --inside; }
    Fixture() { SetNoColor(); auto m=std::unique_ptr<Menu>(new Menu("r")); m->Insert("a",[this](std::ostream&){ ++ran; user("a"); }); m->Insert("b",[this](std::ostream&, int n){ ++ran; user("b"+std::to_string(n)); }); m->Insert("t",[this](std::ostream&){ user("t"); throw 1; });
        m->Insert("p",[this](std::ostream&){ user("p"); Scheduler* s=sch; s->Post([this]{ ++posted; user("posted"); Cli::cout() << "all\n"; }); });
        c.reset(new Cli(std::move(m))); c->EnterAction([this](std::ostream&){ user("enter"); }); c->ExitAction([this](std::ostream&){ user("exit"); ++exits; if (onExit) onExit(); }); c->WrongCommandHandler([this](std::ostream&, const std::string& l){ ++wrong; user("?"+l); }); c->StdExceptionHandler([this](std::ostream&, const std::string&, const std::exception&){ user("caught"); }); }
    bool saw(const char* w) { for (auto& o : order) if (o==w) return true; return false; }
};
static const char* const texts[]={"a\nb 7\n","p\na\n","t\nzz\n","a\t\x1b[A\n","a\x1b","exit\na\n"};
static std::string type(int which, bool eof) { pm.tty=true; pm.lflag=ICANON|ECHO|ISIG; pm.eintr=0; std::string s=texts[which]; pmType((const unsigned char*)s.data(),(int)s.size()); pm.eof=eof; return s; }
ENTRY(h_loop) { // the library's scheduler, run by the thread that made the session
    Fixture f; owner=symx_tid(); depth=0; int which=pick("text",TEXTS+2); bool run=pick("run",2); type(which,run); Looped sch; f.sch=&sch; f.onExit=[&]{ sch.Stop(); }; outsideOk=1;
    { std::unique_ptr<CliLocalTerminalSession> s(new CliLocalTerminalSession(*f.c,sch,f.out)); outsideOk=0; symx_assert(f.saw("enter"),"the enter action has run");
      if (run) { sch.Run(); symx_assert(f.exits==1,"the session ends"); symx_reach("ran to the end"); } else { int n=pick("polls",3); for (int i=0;i<n;++i) which==4?sch.PollOne():sch.ExecOne(); } 
      s.reset(); }
    size_t n=f.order.size(); while (sch.PollOne()) {} if (!f.saw("p")) symx_assert(f.order.size()==n,"nothing after the destruction"); observe(f.buf.s); for (auto& o : f.order) observe(o); symx_reach("loop");
}
ENTRY(h_byte) { // any byte typed
    Fixture f; owner=symx_tid(); depth=0; std::string s="a"+symString(1,"k")+"\n"; symx_assume((unsigned char)s[1]!=255); pm.tty=true; pm.lflag=ICANON|ECHO; pm.eintr=0; pmType((const unsigned char*)s.data(),3); pm.eof=true; Looped sch; f.sch=&sch; f.onExit=[&]{ sch.Stop(); }; outsideOk=1;
    { std::unique_ptr<CliLocalTerminalSession> s(new CliLocalTerminalSession(*f.c,sch,f.out)); outsideOk=0; sch.Run(); symx_assert(f.exits==1,"the session ends"); } observe(f.buf.s); symx_reach("byte");
}
ENTRY(h_mine) { // a scheduler of the user, whose tasks are run by another thread than the one that makes and destroys the session
    Fixture f; owner=symx_tid(); depth=0; int which=pick("text",TEXTS+2); type(which,true); Mine sch; f.sch=&sch; f.onExit=[&]{ sch.stop=true; }; outsideOk=1; std::unique_ptr<CliLocalTerminalSession> s(new CliLocalTerminalSession(*f.c,sch,f.out)); outsideOk=0;
    std::thread th([&]{ owner=symx_tid(); sch.run(); }); th.join(); symx_assert(f.exits==1,"the session ends"); symx_assert(f.saw("enter") && f.saw("exit"),"the actions have run"); size_t n=f.order.size(), o=f.buf.s.size(); owner=-2; s.reset(); symx_assert(f.order.size()==n && f.buf.s.size()==o,"the destruction runs nothing of the user"); owner=symx_tid(); while (sch.one(false)) {} observe(f.buf.s); symx_reach("mine");
}
ENTRY(h_posts) { // other threads post their own tasks, which write on the global stream, while the user types
    Fixture f; owner=symx_tid(); depth=0; type(pick("text",2),true); Looped sch; f.sch=&sch; int other=0; f.onExit=[&]{ sch.Stop(); }; outsideOk=1;
    { std::unique_ptr<CliLocalTerminalSession> s(new CliLocalTerminalSession(*f.c,sch,f.out)); outsideOk=0; std::thread th([&]{ sch.Post([&]{ ++other; f.user("other"); Cli::cout() << "global\n"; }); }); sch.Run(); th.join(); symx_assert(f.exits==1,"the session ends"); while (sch.PollOne()) {} }
    symx_assert(other<=1,"the task of another thread runs once"); if (other) { symx_assert(f.saw("other"),"the task of another thread"); symx_reach("before the end"); } symx_reach("posts"); 
}
