// C18: LoopScheduler. Single thread: every sequence of operations against a queue model. Threads: every interleaving within the preemption bound.
#include "hcommon.h"
#include <cli/loopscheduler.h>
#include <thread>
#include <memory>
#include <stdexcept>
#ifndef OPS2
#define OPS2 4
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef POSTS
#define POSTS 2
#endif
using cli::LoopScheduler; using cli::Scheduler;
enum { PLAIN, NEST, THROW, EMPTY, STOP, KINDS };
struct Rec { int who, n; };
struct Probe { int* live; explicit Probe(int* l) : live(l) { ++live[symx_tid()]; } Probe(const Probe& o) : live(o.live) { ++live[symx_tid()]; } ~Probe() { --live[symx_tid()]; } }; // counted per thread: no synchronisation added
struct World {
    LoopScheduler sch; std::vector<Rec> log; int depth=0; int live[8]={}; int runner=-1; int expected=-1; int done=0; bool nestedIsStop=false;
    void ran(int who, int n) {
        symx_assert(depth==0,"tasks run one at a time"); symx_assert(symx_tid()==runner,"tasks run on the thread that runs the scheduler"); symx_assert(symx_locks_held()==0,"no lock is held while a task runs");
        log.push_back(Rec{who,n});
    }
    void count() { if (++done==expected) sch.Stop(); }
    void task(int who, int n, int kind) {
        ran(who,n); ++depth;
        if (kind==NEST) { size_t before=log.size(); post(who,n+100,PLAIN); symx_assert(log.size()==before,"a task is never run inside the call that posts it"); }
        if (kind==STOP) sch.Stop();
        --depth; count();
        if (kind==THROW) throw std::runtime_error("task");
    }
    void post(int who, int n, int kind) {
        Scheduler& s=sch;
        if (kind==EMPTY) { s.Post(std::function<void()>()); return; }
        Probe p(live); s.Post([this,who,n,kind,p]{ task(who,n,kind); });
    }
};
// ---- one thread
ENTRY(h_ops) {
    auto w=std::unique_ptr<World>(new World); w->runner=0; std::vector<Rec> q; std::vector<int> kinds; bool running=true; size_t next=0; std::vector<Rec> want;
    auto dispatch=[&](int how)->bool { // model of one dispatch: what must be returned
        bool may = running && next<q.size(), threw=false, r=false;
        if (how==1 && running && next>=q.size()) symx_prune(); // would wait for ever
        try { r = how==0 ? w->sch.PollOne() : w->sch.ExecOne(); } catch (const std::runtime_error&) { threw=true; }
        if (!may) { symx_assert(!r && !threw,"nothing is dispatched when there is no task or the scheduler is stopped"); return false; }
        Rec t=q[next]; int k=kinds[next]; ++next;
        if (k!=EMPTY) { want.push_back(t); if (k==NEST) { q.push_back(Rec{t.who,t.n+100}); kinds.push_back(PLAIN); } if (k==STOP) running=false; }
        symx_assert(threw==(k==THROW),"the exception of a task reaches the caller"); symx_assert(threw || r,"a dispatched task is reported"); if (threw) symx_reach("throws");
        return true;
    };
    for (int i=0;i<OPS;++i) switch (pick("op",5)) {
        case 0: { int k=pick("kind",KINDS); w->post(0,i,k); q.push_back(Rec{0,i}); kinds.push_back(k); break; }
        case 1: dispatch(0); break;
        case 2: dispatch(1); break;
        case 3: w->sch.Stop(); running=false; symx_reach("stopped"); break;
        case 4: { // run until stopped or an exception
            bool ends=!running; for (size_t j=next;j<q.size();++j) if (kinds[j]==STOP || kinds[j]==THROW) ends=true;
            if (!ends) symx_prune();
            bool threw=false; try { w->sch.Run(); } catch (const std::runtime_error&) { threw=true; }
            bool wantThrow=false;
            while (running && next<q.size()) { Rec t=q[next]; int k=kinds[next++]; if (k==EMPTY) continue; want.push_back(t); if (k==NEST) { q.push_back(Rec{t.who,t.n+100}); kinds.push_back(PLAIN); } if (k==STOP) running=false; if (k==THROW) { wantThrow=true; break; } }
            symx_assert(threw==wantThrow,"run ends at a stop or an exception"); symx_reach("run"); break; }
    }
    symx_assert(w->sch.Stopped()==!running,"stopped as the operations say");
    symx_assert(w->log.size()==want.size(),"each task runs once, in its turn");
    for (size_t i=0;i<want.size();++i) symx_assert(w->log[i].n==want[i].n,"tasks run in order");
    size_t left=0; for (size_t j=next;j<q.size();++j) if (kinds[j]!=EMPTY) ++left;
    symx_assert(w->live[0]==(int)left,"a task is destroyed when it has run, and only then");
    for (auto& r : w->log) symx_observe_u64(r.n);
    symx_reach("end");
}
// ---- threads: the runner, and two posters
static void check(World& w, int who, int n, int kindOf(int,int)) {
    int last=-1, nested=-1;
    for (auto& r : w.log) if (r.who==who) { if (r.n<100) { symx_assert(r.n>last,"tasks of one thread run in posting order, once"); last=r.n; } else { bool parent=false; for (auto& o : w.log) { if (&o==&r) break; if (o.who==who && o.n==r.n-100) parent=true; } symx_assert(parent && r.n>nested,"a posted task runs after its poster, once"); nested=r.n; } }
}
static int kinds2[2][8]; static int kindOf(int w, int n) { return kinds2[w][n]; }
static int drive(World& w, int how) { // run until the scheduler is stopped; exceptions do not end it
    w.runner=symx_tid(); int thrown=0;
    for (;;) {
        bool end=false;
        try { if (how==0) { w.sch.Run(); end=true; } else if (how==1) end=!w.sch.ExecOne(); else { if (!w.sch.PollOne()) { end=w.sch.Stopped(); if (!end) std::this_thread::yield(); } } }
        catch (const std::runtime_error&) { ++thrown; }
        if (end) return thrown;
    }
}
static void threads(bool mainRuns, int how, int na, int nb) {
    std::unique_ptr<World> wp(new World); World& w=*wp; /* on the heap: clang does not instrument all accesses to locals */ int expected=0, throwers=0;
    for (int p=0;p<2;++p) for (int i=0;i<(p?nb:na);++i) { int k=pick("kind",4); kinds2[p][i]=k; if (k!=EMPTY) { expected+=1+(k==NEST); if (k==THROW) ++throwers; } }
    if (!expected) symx_prune();
    w.expected=expected; int thrown=0;
    std::thread b([&]{ for (int i=0;i<nb;++i) w.post(1,i,kinds2[1][i]); });
    if (mainRuns) { std::thread a([&]{ for (int i=0;i<na;++i) w.post(0,i,kinds2[0][i]); }); thrown=drive(w,how); a.join(); }
    else { std::thread r([&]{ thrown=drive(w,how); }); for (int i=0;i<na;++i) w.post(0,i,kinds2[0][i]); r.join(); }
    b.join();
    symx_assert((int)w.log.size()==expected,"every task has run exactly once"); symx_assert(thrown==throwers,"every exception reached the caller of run");
    check(w,0,na,kindOf); check(w,1,nb,kindOf);
    symx_assert(w.sch.Stopped(),"stopped"); int live=0; for (int x : w.live) live+=x; symx_assert(live==0,"every task is destroyed");
    for (auto& r : w.log) symx_observe_u64(r.who*1000+r.n);
    symx_reach("all ran");
}
ENTRY(h_post_run) { threads(true,0,POSTS,1); }
ENTRY(h_post_other) { threads(false,1+pick("how",2),POSTS,1); }
// stop from a third thread while tasks are posted and run
ENTRY(h_stop) {
    std::unique_ptr<World> wp(new World); World& w=*wp; /* on the heap: clang does not instrument all accesses to locals */ int how=pick("how",3), na=pick("na",POSTS+1), nested=pick("nested",2);
    std::thread a([&]{ for (int i=0;i<na;++i) w.post(0,i,nested && i==0 ? NEST : PLAIN); if (na<POSTS) symx_concretize(w.sch.Stopped()); });
    std::thread s([&]{ w.sch.Stop(); symx_assert(w.sch.Stopped(),"stopped once stop has returned"); w.post(2,0,PLAIN); });
    drive(w,how);
    symx_assert(w.sch.Stopped(),"run returns only when stopped");
    a.join(); s.join();
    size_t n=w.log.size();
    symx_assert(!w.sch.PollOne() && !w.sch.ExecOne(),"a stopped scheduler dispatches nothing"); w.sch.Run();
    symx_assert(w.log.size()==n,"a stopped scheduler runs nothing");
    for (auto& r : w.log) symx_assert(r.who!=2,"a task posted after stop has returned does not run");
    check(w,0,na,kindOf);
    // the tasks run are the first ones
    int seen=0; for (auto& r : w.log) if (r.n<100) symx_assert(r.n==seen++,"a task is not skipped");
    symx_observe_u64(n); symx_reach(n ? "some ran" : "none ran");
}
// a running task calls stop, posts are racing with it; the scheduler is then destroyed with tasks pending
ENTRY(h_stop_task) {
    size_t ran=0; int how=pick("how",2);
    { std::unique_ptr<World> wp(new World); World& w=*wp; /* on the heap: clang does not instrument all accesses to locals */ w.post(0,0,PLAIN); w.post(0,1,STOP); w.post(0,2,PLAIN);
      std::thread a([&]{ w.post(1,0,PLAIN); w.post(1,1,NEST); });
      drive(w,how); ran=w.log.size();
      symx_assert(w.log.size()>=2 && w.log.back().n==1 && w.log.back().who==0,"the task that stops is the last one");
      a.join(); symx_assert(w.log.size()==ran,"nothing runs after stop");
      check(w,0,3,kindOf); }
    symx_observe_u64(ran); symx_reach("stopped by a task");
}
// the runner waits with nothing to do: a post, then a stop, always wake it
ENTRY(h_idle) {
    std::unique_ptr<World> wp(new World); World& w=*wp; /* on the heap: clang does not instrument all accesses to locals */ int n=pick("posts",3);
    std::thread r([&]{ drive(w,0); });
    for (int i=0;i<n;++i) w.post(0,i,PLAIN);
    w.sch.Stop(); r.join();
    int seen=0; for (auto& x : w.log) symx_assert(x.n==seen++,"in order, once");
    symx_assert(seen<=n,"no task runs twice"); symx_observe_u64(seen); symx_reach("returned");
}
// hundreds of tasks: none lost, in order, a stop anywhere
ENTRY(h_big) {
    std::unique_ptr<World> wp(new World); World& w=*wp; w.runner=0; static const int at[]={0,1,63,64,127,128,255,256,299}; int s=at[pick("at",9)], kind=pick("kind",4), n=300; bool threw=false; static const int kinds[]={NEST,THROW,EMPTY,STOP}; int how=pick("how",3); bool mixed=pick("mixed",2);
    for (int i=0;i<n;++i) { w.post(0,i,i==s?kinds[kind]:PLAIN); if (mixed && i%3==2) try { w.sch.PollOne(); } catch (const std::runtime_error&) { threw=true; } }
     int rounds=0; while (!w.sch.Stopped() && (int)w.live[0]>0 && ++rounds<1000) { try { if (how==0) w.sch.PollOne(); else if (how==1) w.sch.ExecOne(); else { w.expected=w.done+1; w.sch.Run(); break; } } catch (const std::runtime_error&) { threw=true; } }
    (void)threw; int seen=0, extra=0; for (auto& r : w.log) { if (r.n>=100+s && r.n!=seen) { symx_assert(kind==0 && r.n==100+s,"order"); ++extra; continue; } if (seen==s && kind==2) ++seen; symx_assert(r.n==seen,"tasks run in posting order, each once"); ++seen; }
    if (how<2) { if (kind==3) symx_assert(seen==s+1 && w.live[0]==n-seen,"nothing runs after stop, nothing before is lost"); else { symx_assert(seen==n || (kind==2 && s==n-1 && seen==n-1),"every task has run"); symx_assert(extra==(kind==0),"the task posted by a task has run"); symx_assert(w.live[0]==0,"destroyed"); } }
    symx_reach("big");
}
// two schedulers: each one has its own tasks, thread and state
ENTRY(h_two) {
    std::unique_ptr<LoopScheduler> s[2]; for (auto& x : s) x.reset(new LoopScheduler); struct T { int id, kind; }; std::vector<T> q[2]; size_t next[2]={0,0}; bool on[2]={true,true}; std::vector<int> ran, want; int id=0;
    std::function<void(int,int,int)> post=[&](int i, int id, int kind) { Scheduler& x=*s[i]; x.Post([&,i,id,kind]{ ran.push_back(id); if (kind==1) post(1-i,id+100,0); if (kind==2) s[1-i]->Stop(); if (kind==3) s[1-i]->PollOne(); }); };
    std::function<bool(int)> poll=[&](int i) { if (!on[i] || next[i]>=q[i].size()) return false; T t=q[i][next[i]++]; want.push_back(t.id); if (t.kind==1) q[1-i].push_back(T{t.id+100,0}); if (t.kind==2) on[1-i]=false; if (t.kind==3) poll(1-i); return true; };
    for (int k=0;k<OPS2+1;++k) { int i=k==0?0:pick("scheduler",2);
        switch (k==0?0:pick("op",3)) {
            case 0: { int kind=pick("kind",4); ++id; post(i,id,kind); q[i].push_back(T{id,kind}); break; }
            case 1: { bool w=poll(i), g=s[i]->PollOne(); symx_assert(w==g,"a dispatched task is reported, of this scheduler only"); break; }
            default: s[i]->Stop(); on[i]=false; symx_reach("stopped"); break; }
        symx_assert(s[0]->Stopped()==!on[0] && s[1]->Stopped()==!on[1],"each scheduler is stopped on its own");
        symx_assert(ran.size()==want.size(),"each task runs once, in its scheduler"); for (size_t j=0;j<want.size() && j<ran.size();++j) symx_assert(ran[j]==want[j],"in order"); }
    for (int x : ran) symx_observe_u64(x); symx_reach("end");
}
ENTRY(h_cross) { // two schedulers run by two threads that post tasks to each other, and a third thread
    struct W { LoopScheduler s[2]; std::vector<int> log[2]; int tid[2]={-1,-1}; } *w=new W; std::unique_ptr<W> own(w); int hops=1+pick("hops",2), extra=pick("extra",3);
    std::function<void(int,int)> hop=[&](int i, int n) { Scheduler& x=w->s[i]; x.Post([&,i,n]{ symx_assert(symx_tid()==w->tid[i],"tasks run on the thread that runs the scheduler"); w->log[i].push_back(n); if (n<hops) hop(1-i,n+1); else { w->s[1-i].Stop(); w->s[i].Stop(); } }); };
    std::thread r([&]{ w->tid[1]=symx_tid(); w->s[1].Run(); });
    std::thread p([&]{ for (int j=0;j<extra;++j) { Scheduler& x=w->s[j]; x.Post([&,j]{ w->log[j].push_back(50); }); } });
    w->tid[0]=symx_tid(); hop(0,0); w->s[0].Run(); r.join(); p.join();
    for (int i=0;i<2;++i) { int want=i, fifty=0; for (int x : w->log[i]) { if (x==50) ++fifty; else { symx_assert(x==want,"in order, once"); want+=2; } symx_observe_u64(x); } symx_assert(want>hops,"every hop has run"); symx_assert(fifty<=(extra>i),"once"); symx_assert(w->s[i].Stopped(),"stopped"); }
    symx_reach("crossed");
}
