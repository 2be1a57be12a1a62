// symx: symbolic executor for LLVM-18 IR (bounded, path-forking, Z3-decided).
// Usage: symx FILE.bc --entry F --out R.json [--max-time S] [--max-paths N] [--max-steps N] [--preempt N] [--spurious N] [--race 0|1] ...
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <functional>
#include <set>
#include <cmath>

using namespace llvm;

ExprMgr X;
static Solver* SV;
static const DataLayout* DL;
static Module* MOD;

struct Val { E e; u64 c; };
static inline Val CV(u64 c) { return Val{nullptr,c}; }
static inline Val EV(E e) { if (e->k==K::Const) return Val{nullptr,e->c}; return Val{e,0}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : X.con(v.c,w); }

// ---------------------------------------------------------------- options
static struct Opt {
    std::string file, entry, out, dump; double maxTime=600; u64 maxPaths=50000000, maxSteps=20000000; int preempt=1000, spurious=0; int race=1; int maxErrors=1;
    int samples=40; u64 dumpN=0; bool verbose=false; int leak=0; u64 seed=1; int atomicPreempt=0; u64 maxMemMB=12000;
} opt;

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OK_Global, OK_Const, OK_Stack, OK_Heap };
struct Shadow { uint16_t wtid=0; uint32_t wclk=0; uint32_t rclk[4]={0,0,0,0}; };
struct MemObj {
    u64 base; u32 size; u32 refs; ObjKind kind; uint8_t how; // how: 0 other,1 malloc,2 new,3 new[]
    std::vector<uint8_t> b;
    std::vector<uint8_t> u;   // uninitialised flags (empty = all initialised)
    std::vector<E> s;         // symbolic bytes (empty = none)
    std::vector<Shadow> sh;
    const char* name;
};
static u64 liveObjs=0;
static inline void ref(MemObj* o) { ++o->refs; }
static inline void unref(MemObj* o) { if (--o->refs==0) { delete o; --liveObjs; } }

struct ObjVec {
    std::vector<MemObj*> v;
    ObjVec() {}
    ObjVec(const ObjVec& o) : v(o.v) { for (auto* x: v) ref(x); }
    ObjVec& operator=(const ObjVec&) = delete;
    ~ObjVec() { for (auto* x: v) unref(x); }
};

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot; Val c; };
enum Op : uint8_t { O_Bin, O_ICmp, O_FBin, O_FCmp, O_FNeg, O_Cast, O_Alloca, O_Load, O_Store, O_Gep, O_Br, O_CondBr, O_Switch, O_IndBr, O_Ret, O_Call, O_Invoke, O_Select,
    O_Extract, O_Insert, O_Landing, O_Resume, O_Unreach, O_Freeze, O_AtomicRMW, O_CmpXchg, O_Fence, O_ExtractElt, O_InsertElt, O_Shuffle, O_Unsupported };
struct DFunc;
struct DInst {
    Op op; uint8_t sub=0; int dst=-1; unsigned w=0, w2=0; unsigned nslots=0;
    std::vector<Opnd> ops;
    std::vector<std::pair<Opnd,std::pair<u64,unsigned>>> gep; // index, scale, width
    u64 imm=0; const Instruction* I=nullptr;
    int t1=-1,t2=-1;
    std::vector<std::pair<u64,int>> cases;
    Function* callee=nullptr; DFunc* cdf=nullptr; int builtin=-1; int intr=0;
    std::vector<std::pair<int,unsigned>> argLayout; // for calls: (first op index, nslots), byval size in 'byval'
    std::vector<u64> byval;
    std::vector<unsigned> argW;
    std::vector<unsigned> leafW; std::vector<u64> leafOff;
    unsigned nelt=1; std::vector<int> mask;
    bool isPtr=false, atomic=false; std::string uns;
};
struct PhiD { int dst; unsigned n; std::vector<std::vector<Opnd>> in; };
struct DBlock { std::vector<DInst> insts; std::vector<PhiD> phis; std::vector<const BasicBlock*> preds; std::unordered_map<int,int> predIdx; bool visited=false; };
struct DFunc { Function* F; std::vector<DBlock> blocks; unsigned nslots=0; std::vector<std::pair<int,unsigned>> argSlots; bool entered=false; u64 calls=0; };

struct Frame {
    DFunc* f; int bb, ip; std::vector<Val> regs; std::vector<u64> allocas; const DInst* call; u64 va=0; // va: memory of the variadic arguments; call: instruction in the caller
};
enum PendKind : uint8_t { P_None, P_Lock, P_CondWait, P_Relock, P_Join, P_Yield, P_Start, P_TimedWait, P_Notify, P_Select };
struct Thread {
    int id; std::vector<Frame> st; bool done=false; PendKind pend=P_None; u64 addr=0, addr2=0; bool granted=false; int spin=0; bool timedOut=false; u64 retv=0;
    std::vector<uint32_t> vc; u64 excPtr=0, excSel=0; std::string name;
    int condStage=0;
};
struct SymIn { std::string name; unsigned w; E e; };
struct MutexS { int owner=-1; int cnt=0; std::vector<uint32_t> vc; };
struct State {
    std::vector<Thread> th; int cur=0;
    std::shared_ptr<ObjVec> globals; ObjVec objs;
    std::vector<E> cons; std::vector<u64> model;
    u64 bump=0x700000000000ull; u64 steps=0; u64 forks=0;
    std::vector<SymIn> ins; std::map<std::string,int> nameCount; u64 nUndef=0;
    std::vector<std::pair<E,u64>> obs; // observed bytes: (expr or null, value)
    std::vector<std::pair<u64,MutexS>> mtx; std::vector<std::pair<std::pair<u64,int>,u64>> tls; // thread-local variables of the threads but the first
    std::vector<std::pair<u64,std::vector<uint32_t>>> atomVC;
    std::vector<int> sched; int preemptions=0, spurious=0; int condSeq=0;
    u64 heapLive=0; std::vector<std::pair<int,std::string>> dummy;
    std::vector<std::string> reached; bool mt=false;
    int lastIdx=-1;
    std::vector<std::string> trace;
    std::vector<uint8_t> pin; // variables whose value the path condition fixes
};

// ---------------------------------------------------------------- globals
static std::unordered_map<const Function*, DFunc*> dfuncs;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, Function*> addrFn;
static std::vector<State*> work;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }

struct ErrRec { std::string kind, msg, where; std::vector<std::pair<std::string,u64>> inputs; std::vector<int> sched; std::string key; };
static std::vector<ErrRec> errors; static std::set<std::string> errKeys; static std::map<std::string,u64> errCount;
static std::map<std::string,u64> inconclusive;
struct PathRec { std::vector<std::pair<std::string,u64>> inputs; std::string obs; std::vector<int> sched; u64 idx; };
static std::vector<PathRec> samples;
static u64 nPaths=0, nSteps=0, nForks=0, nAsserts=0, nAssertsSym=0, nAssumeKilled=0, maxStepsSeen=0, nBranchSym=0, nUndefBranch=0, nSchedPoints=0, nSchedForks=0;
static std::map<std::string,u64> reachCount, assertCount;
static bool stopAll=false;

struct Abort { }; // path terminated (exception used inside the interpreter)
static void inconcl(const std::string& m) { inconclusive[m]++; if (opt.verbose && inconclusive[m]==1) fprintf(stderr,"INCONCLUSIVE: %s\n", m.c_str()); }

static std::string whereOf(State& s) {
    std::string r;
    auto& th=s.th[s.cur];
    for (int i=(int)th.st.size()-1, n=0; i>=0 && n<8; --i,++n) {
        auto& f=th.st[i];
        const DInst* di = (f.ip < (int)f.f->blocks[f.bb].insts.size()) ? &f.f->blocks[f.bb].insts[f.ip] : nullptr;
        std::string nm=demangle(f.f->F->getName().str());
        if (nm.size()>140) nm=nm.substr(0,140)+"...";
        r += (n?" < ":"")+nm;
        if (di && di->I && di->I->getDebugLoc()) { r += "@"+di->I->getDebugLoc()->getFilename().str()+":"+std::to_string(di->I->getDebugLoc().getLine()); }
    }
    return r;
}
static std::vector<std::pair<std::string,u64>> inputsOf(State& s, const std::vector<u64>& m) {
    std::vector<std::pair<std::string,u64>> r;
    for (auto& i: s.ins) r.push_back({i.name,(u64)X.eval(i.e,m)});
    return r;
}
static void reportError(State& s, const std::string& kind, const std::string& msg, const std::vector<u64>& model) {
    ErrRec r; r.kind=kind; r.msg=msg; r.where=whereOf(s); r.inputs=inputsOf(s,model); r.sched=s.sched; r.key=kind+"|"+msg;
    errCount[r.key]++;
    if (errKeys.insert(r.key).second) {
        errors.push_back(r);
        if (opt.verbose) { fprintf(stderr,"ERROR %s: %s\n  at %s\n", kind.c_str(), msg.c_str(), r.where.c_str()); for (auto& p: r.inputs) fprintf(stderr,"    %s=%llu\n",p.first.c_str(),(unsigned long long)p.second); }
    }
    if ((int)errors.size()>=opt.maxErrors || (kind=="hang" && errCount[r.key]>=200)) stopAll=true; // the paths that hang are long: a few of them are enough
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { reportError(s,kind,msg,s.model); throw Abort(); }
[[noreturn]] static void unsupported(State& s, const std::string& m) { inconcl(m+" at "+whereOf(s)); throw Abort(); }

// ---------------------------------------------------------------- state helpers
static State* cloneState(State& s) {
    State* n = new State(s);
    ++nForks; n->forks++; s.forks++;
    return n;
}
static MemObj* newObj(State& s, u64 size, ObjKind k, bool uninit, const char* name, u64 align=16) {
    if (size > (1ull<<40)) fail(s,"memory","allocation too large: "+std::to_string(size));
    if (size > (64u<<20)) { unsupported(s,"allocation too large: "+std::to_string(size)); }
    MemObj* o = new MemObj(); ++liveObjs;
    o->refs=1; o->kind=k; o->how=0; o->size=(u32)size; o->name=name;
    if (align<16) align=16;
    s.bump = (s.bump + align-1) & ~(align-1);
    o->base=s.bump;
    s.bump += ((size+15)&~15ull) + 32;
    o->b.assign(size,0);
    if (uninit) o->u.assign(size,1);
    s.objs.v.push_back(o);
    return o;
}
// returns reference into vector entry
static MemObj** findObj(State& s, u64 a, bool& isGlobal) {
    isGlobal=false;
    if (a >= 0x700000000000ull) {
        auto& v=s.objs.v;
        if (s.lastIdx>=0 && s.lastIdx<(int)v.size()) { MemObj* o=v[s.lastIdx]; if (a>=o->base && a<o->base+o->size) return &v[s.lastIdx]; }
        size_t lo=0, hi=v.size();
        while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->base<=a) lo=m+1; else hi=m; }
        if (!lo) return nullptr;
        MemObj* o=v[lo-1];
        if (a>=o->base && a<o->base+std::max<u32>(o->size,1)) { s.lastIdx=(int)lo-1; return &v[lo-1]; }
        return nullptr;
    }
    auto& v=s.globals->v;
    size_t lo=0, hi=v.size();
    while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->base<=a) lo=m+1; else hi=m; }
    if (!lo) return nullptr;
    MemObj* o=v[lo-1];
    if (a>=o->base && a<o->base+std::max<u32>(o->size,1)) { isGlobal=true; return &v[lo-1]; }
    return nullptr;
}
static MemObj* writable(State& s, MemObj** pp, bool isGlobal) {
    MemObj* o=*pp;
    if (isGlobal) {
        if (s.globals.use_count()>1) {
            u64 base=o->base;
            s.globals = std::make_shared<ObjVec>(*s.globals);
            auto& v=s.globals->v;
            auto it=std::lower_bound(v.begin(),v.end(),base,[](MemObj* x,u64 b){return x->base<b;});
            pp=&*it; o=*pp;
        }
    }
    if (o->refs>1) { MemObj* n=new MemObj(*o); ++liveObjs; n->refs=1; unref(o); *pp=n; o=n; }
    return o;
}
static std::string hex(u64 v) { char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }

static void addCons(State& s, E c) {
    if (c->k==K::Const) return;
    if (c->w==1 && c->k==K::And) { addCons(s,c->a); addCons(s,c->b); return; }
    for (E x: s.cons) if (x==c) return;
    s.cons.push_back(c);
    if (c->k==K::Eq && c->b->k==K::Const) { E v=c->a; while (v->k==K::ZExt) v=v->a; if (v->k==K::Var) { if (s.pin.size()<=v->c) s.pin.resize(v->c+1,0); s.pin[v->c]=1; } }
}
static bool pinned(const State& s, E e) { for (uint32_t v : e->vs->v) if (v>=s.pin.size() || !s.pin[v]) return false; return true; }
// decide a symbolic i1: forks if both feasible. On the forked sibling 'setOther' is called.
static int solveQ(State& s, E c, std::vector<u64>* m) {
    int r=SV->check(s.cons,c,m);
    if (r<0) { inconcl("solver returned unknown"); }
    return r;
}
static void pushWork(State* n) { work.push_back(n); }

static E renameUndef(E e, std::unordered_map<E,E>& memo) {
    if (!e->undef) return e;
    auto it=memo.find(e); if (it!=memo.end()) return it->second;
    E r;
    switch (e->k) {
        case K::Var: r=X.namedVar("undef'"+std::to_string(e->c),e->w,true); break;
        case K::Ite: r=X.ite(renameUndef(e->a,memo),renameUndef(e->b,memo),renameUndef(e->d,memo)); break;
        case K::ZExt: r=X.zext(renameUndef(e->a,memo),e->w); break;
        case K::SExt: r=X.sext(renameUndef(e->a,memo),e->w); break;
        case K::Extract: r=X.extract(renameUndef(e->a,memo),(unsigned)e->c,e->w); break;
        case K::Concat: r=X.concat(renameUndef(e->a,memo),renameUndef(e->b,memo)); break;
        default: r=X.bin(e->k,renameUndef(e->a,memo),renameUndef(e->b,memo));
    }
    memo[e]=r; return r;
}
// A value mentioning an uninitialised byte is an error only if it can really take two
// different values for two contents of that byte (same other inputs).
static void undefCheck(State& s, E c) {
    if (!c->undef) return;
    ++nUndefBranch;
    std::unordered_map<E,E> memo;
    E c2=renameUndef(c,memo);
    std::vector<E> cons=s.cons;
    for (E x: s.cons) if (x->undef) cons.push_back(renameUndef(x,memo));
    std::vector<u64> m=s.model;
    int r=SV->check(cons,X.notE(X.bin(K::Eq,c,c2)),&m);
    if (r==1) { reportError(s,"uninit","branch or address depends on uninitialised memory",m); throw Abort(); }
    if (r<0) inconcl("solver returned unknown");
}
// Forking concretisation. Must be called before the instruction mutates state.
static u64 concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    u128 cc; if (ExprMgr::isWC(v.e,cc)) return (u64)cc;
    undefCheck(s,v.e);
    u64 c=(u64)X.eval(v.e,s.model);
    if (pinned(s,v.e)) return c;
    E eq=X.mkEqC(v.e,c);
    for (E x: s.cons) if (x==eq) return c;
    E ne=X.notE(eq);
    std::vector<u64> m=s.model;
    ++nBranchSym;
    int r=solveQ(s,ne,&m);
    if (r==1) { State* o=cloneState(s); addCons(*o,ne); o->model=m; pushWork(o); addCons(s,eq); }
    else if (r<0) throw Abort();
    else { E x=v.e; while (x->k==K::ZExt) x=x->a; if (x->k==K::Var) addCons(s,eq); }
    return c;
}
// returns 0/1 for the direction taken by s; forks other with constraint (re-executes same instruction)
static bool decide(State& s, const Val& v) {
    if (!v.e) return v.c&1;
    return concretize(s,v,1)&1;
}

// ---------------------------------------------------------------- data-race shadow
static void raceAccess(State& s, MemObj* o, u64 off, u64 n, bool wr) {
    auto& t=s.th[s.cur];
    if (o->sh.empty()) o->sh.resize(o->size);
    int tid=t.id; if (tid>3) return;
    for (u64 i=off;i<off+n && i<o->size;++i) {
        Shadow& h=o->sh[i];
        if (h.wclk && h.wtid!=tid && h.wclk > (h.wtid<t.vc.size()?t.vc[h.wtid]:0)) fail(s,"race",std::string("data race (")+(wr?"write":"read")+" after unsynchronised write)");
        if (wr) {
            for (int k=0;k<4;++k) if (k!=tid && h.rclk[k] && h.rclk[k] > (k<(int)t.vc.size()?t.vc[k]:0)) fail(s,"race","data race (write after unsynchronised read)");
            h.wtid=tid; h.wclk=t.vc[tid];
        } else h.rclk[tid]=t.vc[tid];
    }
}
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size()<b.size()) a.resize(b.size(),0); for (size_t i=0;i<b.size();++i) a[i]=std::max(a[i],b[i]); }

// ---------------------------------------------------------------- load/store
static MemObj** access(State& s, u64 a, u64 n, bool wr, bool& isG) {
    if (a<4096) fail(s,"memory",std::string("null pointer ")+(wr?"write":"read"));
    MemObj** pp=findObj(s,a,isG);
    if (!pp) fail(s,"memory",std::string("invalid ")+(wr?"write":"read")+" (out of bounds or after free)");
    MemObj* o=*pp;
    if (o->how==9) unsupported(s,std::string("access to external global ")+o->name);
    if (n > o->base+o->size-a) fail(s,"memory",std::string("out-of-bounds ")+(wr?"write":"read"));
    if (wr && o->kind==OK_Const) fail(s,"memory","write to constant");
    return pp;
}
static Val loadN(State& s, u64 a, unsigned w, bool atomic=false) {
    unsigned n=(w+7)/8; bool g;
    MemObj** pp=access(s,a,n,false,g);
    MemObj* o=*pp;
    u64 off=a-o->base;
    if (s.mt && opt.race && !atomic && o->kind!=OK_Const) { o=writable(s,pp,g); raceAccess(s,o,off,n,false); }
    bool sym=false, und=false;
    if (!o->s.empty()) for (unsigned i=0;i<n;++i) if (o->s[off+i]) { sym=true; break; }
    if (!o->u.empty()) for (unsigned i=0;i<n;++i) if (o->u[off+i]) { und=true; break; }
    if (und) {
        // bind fresh "undef" variables to the uninitialised bytes so that repeated reads agree
        o=writable(s,pp,g); 
        if (o->s.empty()) o->s.assign(o->size,nullptr);
        for (unsigned i=0;i<n;++i) if (o->u[off+i]) { o->u[off+i]=0; o->s[off+i]=X.namedVar("undef"+std::to_string(s.nUndef++),8,true); }
        sym=true;
    }
    if (!sym && w<=64) { u64 r=0; memcpy(&r,&o->b[off],n); return CV(r & mask64(w)); }
    E r=nullptr;
    for (unsigned i=0;i<n;++i) { E by = (!o->s.empty() && o->s[off+i]) ? o->s[off+i] : X.con(o->b[off+i],8); r = r ? X.concat(by,r) : by; }
    if (w < n*8) r=X.extract(r,0,w);
    return w<=64?EV(r):Val{r,0};
}
static void storeN(State& s, u64 a, const Val& v, unsigned w, bool atomic=false) {
    unsigned n=(w+7)/8; bool g;
    MemObj** pp=access(s,a,n,true,g);
    MemObj* o=writable(s,pp,g);
    u64 off=a-o->base;
    if (s.mt && opt.race && !atomic) raceAccess(s,o,off,n,true);
    if (!o->u.empty()) memset(&o->u[off],0,n);
    if (!v.e) {
        memcpy(&o->b[off],&v.c,std::min(n,8u));
        if (!o->s.empty()) for (unsigned i=0;i<n;++i) o->s[off+i]=nullptr;
    } else {
        E e=v.e; if (e->w < n*8) e=X.zext(e,n*8);
        for (unsigned i=0;i<n;++i) {
            E by=X.extract(e,i*8,8);
            if (by->k==K::Const) { o->b[off+i]=(uint8_t)by->c; if (!o->s.empty()) o->s[off+i]=nullptr; }
            else { if (o->s.empty()) o->s.assign(o->size,nullptr); o->s[off+i]=by; }
        }
    }
}
// load from possibly symbolic address
static Val loadSym(State& s, const Val& p, unsigned w, bool atomic=false) {
    if (!p.e) return loadN(s,p.c,w,atomic);
    undefCheck(s,p.e);
    u64 a0=(u64)X.eval(p.e,s.model);
    bool g; MemObj** pp = a0>=4096 ? findObj(s,a0,g) : nullptr;
    unsigned n=(w+7)/8;
    if (pp && (*pp)->kind==OK_Const && (*pp)->size<=4096 && (*pp)->s.empty() && w<=64) {
        MemObj* o=*pp;
        E in = X.andB(X.bin(K::Ule,X.con(o->base,64),p.e), X.bin(K::Ule,p.e,X.con(o->base+o->size-n,64)));
        std::vector<u64> m=s.model;
        int r=SV->check(s.cons,X.notE(in),&m);
        if (r==0) {
            std::map<u64,std::vector<u64>> byVal; // value -> offsets
            // only consider offsets that are feasible with respect to the alignment of the model value
            for (u64 off=0; off+n<=o->size; ++off) { if ((off & (n-1)) != ((a0-o->base)&(n-1)) && (n==2||n==4||n==8)) continue; u64 v=0; memcpy(&v,&o->b[off],n); byVal[v&mask64(w)].push_back(off); }
            if (n==2||n==4||n==8) { // alignment assumption must be valid
                E al=X.mkEqC(X.bin(K::And,p.e,X.con(n-1,64)), a0&(n-1));
                if (SV->check(s.cons,X.notE(al),&m)!=0) byVal.clear();
            }
            if (!byVal.empty()) {
                u64 common=0; size_t best=0; for (auto& kv: byVal) if (kv.second.size()>best) { best=kv.second.size(); common=kv.first; }
                E r2=X.con(common,w);
                for (auto& kv: byVal) { if (kv.first==common) continue; E c=X.con(0,1); for (u64 off: kv.second) c=X.orB(c,X.mkEqC(p.e,o->base+off)); r2=X.ite(c,X.con(kv.first,w),r2); }
                return EV(r2);
            }
        }
    }
    u64 a=concretize(s,p,64);
    return loadN(s,a,w,atomic);
}
static void freeObj(State& s, u64 a, const char* what) {
    if (!a) return;
    auto& v=s.objs.v;
    size_t lo=0, hi=v.size();
    while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->base<=a) lo=m+1; else hi=m; }
    if (!lo || v[lo-1]->base!=a || v[lo-1]->kind!=OK_Heap) fail(s,"memory",std::string("invalid free (double free or not heap) via ")+what);
    unref(v[lo-1]);
    v.erase(v.begin()+(lo-1));
    s.lastIdx=-1; s.heapLive--;
}
static void freeStack(State& s, Frame& f) {
    auto& v=s.objs.v;
    for (size_t k=f.allocas.size(); k-- >0;) {
        u64 a=f.allocas[k];
        size_t lo=0, hi=v.size();
        while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->base<=a) lo=m+1; else hi=m; }
        if (lo && v[lo-1]->base==a) { unref(v[lo-1]); v.erase(v.begin()+(lo-1)); }
    }
    s.lastIdx=-1;
}
static std::string readCStr(State& s, u64 a) {
    std::string r;
    for (int i=0;i<4096;++i) { Val v=loadN(s,a+i,8,true); u64 c = v.e ? (u64)X.eval(v.e,s.model) : v.c; if (!c) break; r+=(char)c; }
    return r;
}
static void copyMem(State& s, u64 d, u64 src, u64 n) {
    if (!n) return;
    bool g1,g2;
    MemObj** ps=access(s,src,n,false,g1);
    if (s.mt && opt.race && (*ps)->kind!=OK_Const) { MemObj* o=writable(s,ps,g1); raceAccess(s,o,src-o->base,n,false); }
    ps=access(s,src,n,false,g1); 
    MemObj* so=*ps; u64 so_off=src-so->base;
    std::vector<uint8_t> b(so->b.begin()+so_off, so->b.begin()+so_off+n);
    std::vector<uint8_t> u; if (!so->u.empty()) u.assign(so->u.begin()+so_off, so->u.begin()+so_off+n);
    std::vector<E> sy; if (!so->s.empty()) sy.assign(so->s.begin()+so_off, so->s.begin()+so_off+n);
    MemObj** pd=access(s,d,n,true,g2);
    MemObj* o=writable(s,pd,g2); u64 off=d-o->base;
    if (s.mt && opt.race) raceAccess(s,o,off,n,true);
    memcpy(&o->b[off],b.data(),n);
    if (!u.empty()) { bool any=false; for (auto x: u) any|=x; if (any && o->u.empty()) o->u.assign(o->size,0); }
    if (!o->u.empty()) { if (u.empty()) memset(&o->u[off],0,n); else memcpy(&o->u[off],u.data(),n); }
    if (!sy.empty() && o->s.empty()) o->s.assign(o->size,nullptr);
    if (!o->s.empty()) for (u64 i=0;i<n;++i) o->s[off+i]= sy.empty()?nullptr:sy[i];
}
#include "decode.h"
#include "exec.h"
