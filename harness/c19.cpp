// C19: the asio based schedulers.
#ifndef VARIANT
#define VARIANT 0
#endif
#if VARIANT==2
#define ASIO_VERSION 101200
#elif VARIANT==3
#define BOOST_VERSION 106500
#endif
#include "hcommon.h"
#if VARIANT&1
#include <cli/boostasioscheduler.h>
typedef cli::BoostAsioScheduler Sched;
#else
#include <cli/standaloneasioscheduler.h>
typedef cli::StandaloneAsioScheduler Sched;
#endif
#ifndef OPS2
#define OPS2 4
#endif
#ifndef OPS
#define OPS 4
#endif
typedef Sched::ContextType Ctx;
struct World { // a scheduler and what it must do
    std::unique_ptr<Ctx> ext; std::unique_ptr<Sched> s; std::vector<int> want /*posted, not yet run*/, ran; std::vector<int> kind; bool inPost=false, stopped=false; int depth=0, next=0; std::shared_ptr<int> token=std::make_shared<int>(0);
    explicit World(bool external) { if (external) { ext.reset(new Ctx()); s.reset(new Sched(*ext)); } else s.reset(new Sched()); symx_assert(Ctx::live()==1,"one context"); if (external) symx_assert(&s->AsioContext()==ext.get(),"uses the context it is given"); symx_assert(!s->Stopped(),"a new scheduler is not stopped"); }
    void post(int k) { int id=next++; kind.push_back(k); want.push_back(id); auto t=token; inPost=true; std::function<void()> f=[this,id,t]{ task(id); }; cli::Scheduler& base=*s; base.Post(f); inPost=false; }
    void task(int id) {
        symx_assert(!inPost && depth==0,"a task runs inside a call that posts, or inside another task"); symx_assert(!stopped,"a task runs after stop"); symx_assert(!want.empty() && want[0]==id,"tasks run once, in posting order"); if (!want.empty()) want.erase(want.begin()); ran.push_back(id); ++depth; struct out { int& d; ~out() { --d; } } o{depth};
        switch (kind[id]) { case 1: post(0); symx_reach("posted by a task"); break; case 2: symx_reach("a task throws"); throw std::runtime_error("task"); case 3: stop(); break; }
    }
    void stop() { s->Stop(); stopped=true; symx_assert(s->Stopped(),"stopped"); }
    template <class F> void guard(F f, bool& threw) { threw=false; try { f(); } catch (const std::runtime_error&) { threw=true; } }
};
ENTRY(h_ops) { // any sequence of operations of the user
    bool external=pick("external",2); World w(external);
    for (int i=0;i<OPS;++i) {
        size_t r=w.ran.size(), pending=w.want.size(); bool threw=false;
        switch (pick("op",5)) {
            case 0: w.post(pick("task",4)); symx_assert(w.ran.size()==r,"a task runs inside the call that posts it"); break;
            case 1: w.guard([&]{ w.s->PollOne(); },threw); symx_assert(w.ran.size()==r+(pending&&(!w.stopped||w.ran.size()>r)?1:0),"poll runs one task, if there is any"); break;
            case 2: if (!pending) symx_prune(); w.guard([&]{ w.s->ExecOne(); },threw); symx_assert(w.ran.size()==r+(w.ran.size()>r?1:0) && (w.ran.size()>r || w.stopped),"one task is executed"); break;
            case 3: { // run until stop (or, on a context of the user, until there is nothing to do)
                bool was=w.stopped; int waits=0; w.s->AsioContext().idle=[&]{ ++waits; symx_assert(w.want.empty() && !w.stopped,"waits when there is something to do"); if (waits==1) w.post(0); else w.stop(); return true; };
                w.guard([&]{ w.s->Run(); },threw); w.s->AsioContext().idle=nullptr;
                if (was) symx_assert(w.ran.size()==r,"a stopped scheduler runs nothing"); else if (!threw && !external) symx_assert(w.stopped,"run returns before stop"); else if (!threw) { symx_assert(w.stopped || (w.want.empty() && waits==0),"run returns with something to do"); if (!w.stopped) w.stopped=true; }
                if (threw) symx_reach("error out of run"); else symx_reach("run"); break; }
            default: w.stop(); symx_reach("stopped");
        }
        if (threw) symx_assert(!w.ran.empty() && w.kind[w.ran.back()]==2,"an exception that no task threw");
        for (size_t j=1;j<w.ran.size();++j) symx_assert(w.ran[j]>w.ran[j-1],"order");
        if (external && !w.stopped && w.want.empty() && w.s->Stopped()) w.stopped=true; // a context without work stops
        symx_assert(w.s->Stopped()==w.stopped,"Stopped");
    }
    long uses=w.token.use_count(); symx_assert(uses==1+(long)w.want.size(),"the tasks not yet run are kept, the others released"); w.s.reset();
    if (external) { symx_assert(Ctx::live()==1,"an external context is left alive"); symx_assert(w.ext->stopped()==w.stopped,"an external context is left as it is");
        if (w.want.empty() && pick("another",2)) { if (w.stopped) w.ext->restart(); Sched other(*w.ext); int n=0; other.Post([&]{ ++n; }); symx_assert(n==0,"inside the call that posts"); other.PollOne(); symx_assert(n==1,"another scheduler on the same context"); symx_reach("another scheduler"); }
        if (w.want.size()) { w.ext->restart(); w.stopped=false; for (auto& k : w.kind) k=0; w.ext->poll(); symx_assert(w.want.empty(),"what was posted is still in the context of the user"); symx_reach("run by the user"); } w.ext.reset(); }
    symx_assert(Ctx::live()==0,"an owned context is destroyed with its scheduler"); symx_assert(w.token.use_count()==1,"no task is lost or leaked"); symx_reach("end");
}
ENTRY(h_keepalive) { // an owned context waits for tasks even when it has nothing to do
    World w(false); int rounds=0; w.s->AsioContext().idle=[&]{ symx_assert(w.want.empty(),"idle with tasks"); if (++rounds<=2) w.post(rounds==1?2:0); else if (rounds==3) w.post(3); else return false; return true; };
    bool threw; w.guard([&]{ w.s->Run(); },threw); symx_assert(threw && rounds==1,"the error comes out of run"); symx_assert(!w.s->Stopped(),"and does not stop the scheduler"); w.guard([&]{ w.s->Run(); },threw); symx_assert(!threw && rounds==3 && w.stopped && w.ran.size()==3,"until stop"); symx_reach("kept alive");
}
ENTRY(h_big) { // hundreds of tasks
    bool external=pick("external",2); World w(external); static const int at[]={0,1,127,128,255,256,299}; int s=at[pick("at",7)], kind=pick("kind",4); for (int i=0;i<300;++i) w.post(i==s?kind:0); int how=pick("how",3), throws=0;
    w.s->AsioContext().idle=[&]{ symx_assert(w.want.empty() && !w.stopped,"waits when there is something to do"); w.stop(); return true; };
    for (int i=0;i<400 && !w.stopped && !w.want.empty();++i) { bool threw; size_t r=w.ran.size(); if (how==0) w.guard([&]{ w.s->PollOne(); },threw); else if (how==1) w.guard([&]{ w.s->ExecOne(); },threw); else w.guard([&]{ w.s->Run(); },threw); if (threw) { ++throws; symx_assert(w.kind[w.ran.back()]==2,"an exception that no task threw"); } symx_assert(how==2 ? w.ran.size()>r : w.ran.size()==r+1,"progress"); }
    w.s->AsioContext().idle=nullptr; symx_assert(throws==(kind==2),"every exception comes out"); symx_assert(w.ran.size()==(kind==3?(size_t)s+1:kind==1?301u:300u),"every task until stop has run"); symx_reach("big");
}
ENTRY(h_two) { // two schedulers: on their own contexts nothing is shared, on one context everything is
    bool shared=pick("shared",2); std::unique_ptr<Ctx> ext; std::unique_ptr<Sched> s[2]; if (shared) { ext.reset(new Ctx()); s[0].reset(new Sched(*ext)); s[1].reset(new Sched(*ext)); } else { s[0].reset(new Sched()); s[1].reset(new Sched()); }
    symx_assert(Ctx::live()==(shared?1:2),"one context for each scheduler, or the given one"); std::vector<int> q[2], ran, want; bool on[2]={true,true}; int id=0; auto token=std::make_shared<int>(0); int gone=-1;
    for (int k=0;k<OPS2;++k) { int i=pick("scheduler",2), c=shared?0:i; if (!s[i]) symx_prune(); size_t r=ran.size();
        switch (pick("op",4)) {
            case 0: { int n=id++; auto t=token; cli::Scheduler& x=*s[i]; x.Post([&ran,n,t]{ ran.push_back(n); }); q[c].push_back(n); symx_assert(ran.size()==r,"a task runs inside the call that posts it"); break; }
            case 1: { bool may=on[c] && !q[c].empty(); s[i]->PollOne(); if (may || ran.size()>r) { if (!q[c].empty()) { want.push_back(q[c].front()); q[c].erase(q[c].begin()); } } if (shared && q[c].empty() && s[i]->Stopped()) on[c]=false; break; }
            case 2: s[i]->Stop(); on[c]=false; symx_assert(s[i]->Stopped(),"stopped"); symx_reach("stopped"); break;
            default: if (gone>=0) symx_prune(); s[i].reset(); gone=i; if (!shared) q[c].clear(); symx_assert(Ctx::live()==1,"an owned context is destroyed with its scheduler, another one is left alive"); symx_reach("destroyed"); break; }
        symx_assert(ran==want,"tasks run once, in posting order"); for (int j=0;j<2;++j) if (s[j]) { int d=shared?0:j; symx_assert(s[j]->Stopped()==!on[d] || (shared && q[d].empty()),"each scheduler is stopped on its own"); }
        symx_assert((size_t)token.use_count()==1+(shared?q[0].size():(gone==0?0:q[0].size())+(gone==1?0:q[1].size())),"the tasks not yet run are kept, the others released"); }
    s[0].reset(); s[1].reset(); symx_assert(Ctx::live()==(shared?1:0),"live contexts"); ext.reset(); symx_assert(Ctx::live()==0 && token.use_count()==1,"no task is lost or leaked"); symx_reach(shared?"one context":"own contexts");
}
