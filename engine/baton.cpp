// Native replay of a recorded schedule: pthread_* of the program under test are replaced by virtual ones, one thread runs at a time,
// and at each scheduling point the recorded choice decides who goes on. Same state machine as the engine (exec.h).
// With SYMX_TSAN the hooks of -fsanitize=thread are implemented here by a vector clock race detector (the real run time would take the baton for synchronisation).
#include "symx.h"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <malloc.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <new>
extern "C" void symx_native_fail(const char*);
extern "C" __attribute__((weak)) int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
typedef std::vector<unsigned> VC;
enum Pend { P_None, P_Start, P_Yield, P_Lock, P_Relock, P_Join, P_CondWait, P_TimedWait, P_Notify };
struct Th { int id; volatile int sem=0; bool done=false; int pend=P_None; const void* a=nullptr; const void* b=nullptr; long arg=0; int ret=0; int cnt=0; bool granted=false; int spin=0; void*(*fn)(void*)=nullptr; void* farg=nullptr; pthread_t real; VC vc; };
struct Mx { int owner=-1, cnt=0; VC vc; };
static Th* th[8]; static int nth=1, cur=0, preemptions=0; static std::map<const void*,Mx>* mxs; static std::vector<int>* sched; static size_t spos=0; static bool on=false, mt=false; static int depth=0; static int atomicPreempt=1;
static __thread int selfId=0;
static void join(VC& a, const VC& b) { if (a.size()<b.size()) a.resize(b.size(),0); for (size_t i=0;i<b.size();++i) if (b[i]>a[i]) a[i]=b[i]; }
static Th& me() { return *th[selfId]; }
static int alive() { int n=0; for (int i=0;i<nth;++i) if (!th[i]->done) ++n; return n; }
static Mx& mx(const void* m) { return (*mxs)[m]; }
static bool recursive(const void* m) { return ((const pthread_mutex_t*)m)->__data.__kind==1; }
static bool mfree(const void* m, int id) { Mx& x=mx(m); return x.owner<0 || (x.owner==id && recursive(m)); }
static void macq(Th& t, const void* m) { Mx& x=mx(m); x.owner=t.id; x.cnt++; join(t.vc,x.vc); }
static void mrel(Th& t, const void* m) { Mx& x=mx(m); if (x.owner!=t.id) symx_native_fail("unlock of a mutex not owned by this thread"); if (--x.cnt==0) x.owner=-1; x.vc=t.vc; t.vc[t.id]++; }
static void semWait(Th& t) { while (!__atomic_load_n(&t.sem,__ATOMIC_ACQUIRE)) syscall(SYS_futex,&t.sem,FUTEX_WAIT_PRIVATE,0,nullptr,nullptr,0); __atomic_store_n(&t.sem,0,__ATOMIC_RELEASE); }
static void semPost(Th& t) { __atomic_store_n(&t.sem,1,__ATOMIC_RELEASE); syscall(SYS_futex,&t.sem,FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0); }
static bool runnable(Th& t) {
    if (t.done) return false;
    switch (t.pend) { case P_None: case P_Yield: case P_Start: case P_Notify: return true; case P_Lock: return mfree(t.a,t.id); case P_Relock: return mfree(t.b,t.id); case P_Join: return th[t.arg]->done; default: return false; }
}
static void apply(int tid, int kind, int arg) {
    cur=tid; Th& t=*th[tid]; int p=t.pend; t.pend=P_None; t.ret=0;
    switch (p) {
        case P_Lock: macq(t,t.a); break;
        case P_Relock: case P_CondWait: macq(t,t.b); mx(t.b).cnt=t.cnt; break;
        case P_TimedWait: macq(t,t.b); mx(t.b).cnt=t.cnt; t.ret=ETIMEDOUT; break;
        case P_Join: join(t.vc,th[t.arg]->vc); break;
        case P_Notify: for (int i=0;i<nth;++i) { Th& o=*th[i]; if (!o.done && (o.pend==P_CondWait||o.pend==P_TimedWait) && o.a==t.a && (t.arg || arg<0 || arg==i)) { o.pend=P_Relock; if (!t.arg) break; } } break;
        case P_Yield: if (t.arg==2) t.granted=true; break;
        default: break;
    }
}
static void diverged() { fprintf(stderr,"SCHEDULE-DIVERGED at %zu\n",spos); _exit(46); }
static void point() {
    Th& t=me(); ++depth;
    int tid=-1, kind=0, arg=-1;
    if (spos<sched->size()) {
        int v=(*sched)[spos++]; tid=v&255; kind=(v>>8)&255; arg=(v>>16)-1;
        if (tid>=nth || th[tid]->done) diverged();
        Th& n=*th[tid];
        if (kind==0 ? !runnable(n) : !((n.pend==P_CondWait||n.pend==P_TimedWait) && mfree(n.b,n.id))) diverged();
    } else {
        if (runnable(t)) tid=t.id; else for (int i=0;i<nth && tid<0;++i) if (runnable(*th[i])) tid=i;
        if (tid<0) for (int i=0;i<nth && tid<0;++i) if (!th[i]->done && th[i]->pend==P_TimedWait && mfree(th[i]->b,i)) { tid=i; kind=1; }
        if (tid<0) symx_native_fail("deadlock");
    }
    apply(tid,kind,arg);
    --depth;
    if (tid!=t.id) { semPost(*th[tid]); if (!t.done) semWait(t); }
}
static void* tramp(void* p) {
    Th* t=(Th*)p; selfId=t->id; semWait(*t);
    t->fn(t->farg);
    t->done=true; for (auto& m : *mxs) if (m.second.owner==t->id) symx_native_fail("thread ended holding a mutex");
    point(); return nullptr;
}
static int condWait(const void* c, const void* m, bool timed) {
    Th& t=me(); if (alive()>1) { t.pend=P_Yield; t.arg=2; point(); t.granted=false; }
    Mx& x=mx(m); if (x.owner!=t.id) symx_native_fail("condition wait without holding the mutex");
    t.cnt=x.cnt; x.cnt=1; mrel(t,m); t.pend=timed?P_TimedWait:P_CondWait; t.a=c; t.b=m; point(); return t.ret;
}
static bool atomicPoint(int w) { Th& t=me(); if (!on || !mt || w>32 || depth || alive()<2 || !atomicPreempt) return false; t.pend=P_Yield; t.arg=2; point(); t.granted=false; return true; }
extern "C" {
void symx_native_init(const char* f) {
    mxs=new std::map<const void*,Mx>; sched=new std::vector<int>; th[0]=new Th; th[0]->id=0; th[0]->vc={1}; if (const char* e=getenv("SYMX_ATOMIC")) atomicPreempt=atoi(e);
    if (f) if (FILE* h=fopen(f,"r")) { int v; while (fscanf(h,"%d",&v)==1) sched->push_back(v); fclose(h); }
    on=true;
}
int symx_tid(void) { return selfId; }
int symx_locks_held(void) { int n=0; for (auto& m : *mxs) if (m.second.owner==selfId) ++n; return n; }
void symx_sync_point(void) { if (alive()<2) return; Th& t=me(); t.pend=P_Yield; t.arg=0; point(); }
int pthread_create(pthread_t* out, const pthread_attr_t* at, void*(*fn)(void*), void* arg) {
    static create_t real=__interceptor_pthread_create?__interceptor_pthread_create:(create_t)dlsym(RTLD_NEXT,"pthread_create");
    if (!on) return real(out,at,fn,arg);
    if (nth>6) { fprintf(stderr,"too many threads\n"); _exit(46); }
    Th& t=me(); Th* n=new Th; n->id=nth; n->fn=fn; n->farg=arg; n->pend=P_Start; n->vc=t.vc; n->vc.resize(nth+1>(int)n->vc.size()?nth+1:n->vc.size(),0); n->vc[nth]=1; t.vc[t.id]++; th[nth++]=n; mt=true;
    bool o=on; on=false; int r=real(&n->real,at,tramp,n); on=o; if (r) return r;
    *out=n->real; t.pend=P_Yield; t.arg=0; point(); return 0;
}
int pthread_join(pthread_t h, void**) { int k=-1; for (int i=1;i<nth;++i) if (pthread_equal(th[i]->real,h)) k=i; if (k<0) symx_native_fail("pthread_join of invalid thread"); Th& t=me(); t.pend=P_Join; t.arg=k; point(); return 0; }
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on||depth) return 0; Th& t=me();
    if (alive()==1 || (!mfree(m,t.id) && mx(m).owner==t.id)) { if (!mfree(m,t.id)) symx_native_fail("thread locks a mutex it already owns, or one left locked"); macq(t,m); return 0; }
    t.pend=P_Lock; t.a=m; point(); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on||depth) return 0; Th& t=me(); if (alive()>1) { t.pend=P_Yield; t.arg=2; point(); t.granted=false; } if (mfree(m,t.id)) { macq(t,m); return 0; } return EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on||depth) return 0; mrel(me(),m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c,m,false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c,m,true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c,m,true); }
int pthread_cond_signal(pthread_cond_t* c) { if (!on || alive()==1) return 0; Th& t=me(); t.pend=P_Notify; t.a=c; t.arg=0; point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on || alive()==1) return 0; Th& t=me(); t.pend=P_Notify; t.a=c; t.arg=1; point(); return 0; }
static int yieldPoint() { if (!on || alive()==1) return 0; Th& t=me(); t.pend=P_Yield; t.arg=1; point(); return 0; }
int sched_yield(void) { return yieldPoint(); }
int nanosleep(const struct timespec*, struct timespec*) { return yieldPoint(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return yieldPoint(); }
int usleep(useconds_t) { return yieldPoint(); }
}
#ifdef SYMX_TSAN
struct Sh { int wt=-1; unsigned wc=0; unsigned rc[8]={0}; };
static std::map<unsigned long,Sh>* shadow; static std::map<unsigned long,VC>* atoms; static int inHook=0; static bool raceOn=false;
static bool live() { if (!on || !mt || depth || inHook) return false; if (!shadow) { ++inHook; raceOn=getenv("SYMX_RACE")!=nullptr; shadow=new std::map<unsigned long,Sh>; atoms=new std::map<unsigned long,VC>; --inHook; } return raceOn; }
static unsigned clk(Th& t, int i) { return i<(int)t.vc.size()?t.vc[i]:0; }
static std::map<unsigned long,unsigned long>* dead;
static void acc(const void* p, size_t n, bool wr) {
    if (dead && !inHook && !depth) { auto i=dead->upper_bound((unsigned long)p+n-1); if (i!=dead->begin()) { --i; if (i->second>(unsigned long)p) symx_native_fail("use after free"); } }
    if (!live()) return; ++inHook; Th& t=me();
    for (size_t i=0;i<n;++i) { Sh& h=(*shadow)[(unsigned long)p+i];
        if (h.wt>=0 && h.wt!=t.id && h.wc>clk(t,h.wt)) symx_native_fail("data race (access after unsynchronised write)");
        if (wr) { for (int k=0;k<8;++k) if (k!=t.id && h.rc[k]>clk(t,k)) symx_native_fail("data race (write after unsynchronised read)"); h.wt=t.id; h.wc=t.vc[t.id]; } else h.rc[t.id]=t.vc[t.id]; }
    --inHook;
}
static void __attribute__((unused)) forget(const void* p, size_t n) { if (!shadow) return; ++inHook; auto a=shadow->lower_bound((unsigned long)p), b=shadow->lower_bound((unsigned long)p+n); shadow->erase(a,b); --inHook; }
static bool isGuard(const volatile void* p) { ++inHook; Dl_info i; bool r=dladdr((const void*)p,&i) && i.dli_sname && i.dli_saddr==(const void*)p && !strncmp(i.dli_sname,"_ZGV",4); --inHook; return r; }
static void acq(const volatile void* p) { if (!live()) return; ++inHook; auto i=atoms->find((unsigned long)p); if (i!=atoms->end()) join(me().vc,i->second); --inHook; }
static void rel(const volatile void* p) { if (!live()) return; ++inHook; join((*atoms)[(unsigned long)p],me().vc); me().vc[selfId]++; --inHook; }
void* operator new(size_t n) { void* p=malloc(n?n:1); if (!p) abort(); if (!inHook && !depth) forget(p,malloc_usable_size(p)); return p; }
void operator delete(void* p) noexcept { if (p && on && !inHook && !depth) { size_t n=malloc_usable_size(p); acc(p,n,true); ++inHook; if (!dead) dead=new std::map<unsigned long,unsigned long>; (*dead)[(unsigned long)p]=(unsigned long)p+n; --inHook; return; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { acc(p,n,false); } void __tsan_write##n(void* p) { acc(p,n,true); } void __tsan_unaligned_read##n(void* p) { acc(p,n,false); } void __tsan_unaligned_write##n(void* p) { acc(p,n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p,n,false); } void __tsan_write_range(void* p, size_t n) { acc(p,n,true); }
void __tsan_vptr_update(void** p, void* v) { if (*p!=v) acc(p,8,true); } void __tsan_vptr_read(void** p) { acc(p,8,false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc(s,n,false); acc(d,n,true); return memcpy(d,s,n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc(s,n,false); acc(d,n,true); return memmove(d,s,n); }
void* __tsan_memset(void* d, int c, size_t n) { acc(d,n,true); return memset(d,c,n); }
#define AT(T,B) \
 T __tsan_atomic##B##_load(const volatile T* p, int) { if (!(B==8 && isGuard(p))) atomicPoint(B); acq(p); return *p; } \
 void __tsan_atomic##B##_store(volatile T* p, T v, int) { atomicPoint(B); *p=v; rel(p); } \
 T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { if (B<=8) atomicPoint(B); acq(p); T o=*p; *p=v; rel(p); return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { acq(p); T o=*p; *p=o+v; rel(p); return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { acq(p); T o=*p; *p=o-v; rel(p); return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { acq(p); T o=*p; *p=o&v; rel(p); return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { acq(p); T o=*p; *p=o|v; rel(p); return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { acq(p); T o=*p; *p=o^v; rel(p); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicPoint(B); acq(p); if (*p==*e) { *p=v; rel(p); return 1; } *e=*p; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p,e,v,a,b); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomicPoint(B); acq(p); T o=*p; if (o==e) { *p=v; rel(p); } return o; }
AT(unsigned char,8) AT(unsigned short,16) AT(unsigned,32) AT(unsigned long,64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
#endif
