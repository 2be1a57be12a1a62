// Interpreter loop, builtins, exceptions, threads, driver.
#pragma once

static inline Val rd(Frame& f, const Opnd& o) { return o.slot>=0 ? f.regs[o.slot] : o.c; }
static inline bool isConc(const Val& v, u128& out) { if (!v.e) { out=v.c; return true; } return ExprMgr::isWC(v.e,out); }
static Val mkVal(E e) { if (e->w<=64) return EV(e); return Val{e,0}; }

static void jump(State& s, Thread& t, Frame& f, int bb) {
    DBlock& b=f.f->blocks[bb];
    if (!b.phis.empty()) {
        auto it=b.predIdx.find(f.bb);
        int pi = it==b.predIdx.end()?0:it->second;
        static thread_local std::vector<Val> tmp; tmp.clear();
        for (auto& p : b.phis) for (unsigned i=0;i<p.n;++i) tmp.push_back(rd(f,p.in[pi][i]));
        size_t k=0;
        for (auto& p : b.phis) for (unsigned i=0;i<p.n;++i) f.regs[p.dst+i]=tmp[k++];
    }
    f.bb=bb; f.ip=0; b.visited=true;
}
// complete a call-like instruction of the top frame with value(s) and advance
static void finishCall(State& s, Thread& t, const Val* vals, unsigned n) {
    Frame& f=t.st.back();
    const DInst& di=f.f->blocks[f.bb].insts[f.ip];
    for (unsigned i=0;i<di.nslots;++i) f.regs[di.dst+i] = i<n ? vals[i] : CV(0);
    if (di.op==O_Invoke) jump(s,t,f,di.t1); else f.ip++;
}
static void retv(State& s, Thread& t, Val v) { finishCall(s,t,&v,1); }

static void pushFrame(State& s, Thread& t, Function* F, std::vector<Val>& args, const DInst* call) {
    if (t.st.size()>2000) fail(s,"memory","call stack overflow (recursion deeper than 2000)");
    DFunc* d=getDFunc(F);
    d->calls++;
    t.st.emplace_back();
    Frame& f=t.st.back();
    f.f=d; f.bb=0; f.ip=0; f.call=call; f.regs.assign(d->nslots,CV(0));
    d->blocks[0].visited=true;
    unsigned total=0; for (auto& a : d->argSlots) total+=a.second;
    for (unsigned i=0;i<total && i<args.size();++i) f.regs[i]=args[i];
    if (F->isVarArg() && args.size()>total) { MemObj* o=newObj(s,8*(args.size()-total),OK_Stack,false,"variadic arguments"); u64 b=o->base; f.va=b; f.allocas.push_back(b); for (size_t i=total;i<args.size();++i) storeN(s,b+8*(i-total),args[i].e?EV(X.zext(args[i].e,64)):args[i],64); }
}

// ---------------------------------------------------------------- threads
struct Choice { int tid, kind, arg; };
static MutexS& mtxOf(State& s, u64 a) { for (auto& p : s.mtx) if (p.first==a) return p.second; s.mtx.push_back({a,MutexS()}); return s.mtx.back().second; }
static int aliveThreads(State& s) { int n=0; for (auto& t : s.th) if (!t.done) ++n; return n; }
static bool mutexFree(State& s, u64 a, int tid) { auto& m=mtxOf(s,a); if (m.owner<0) return true; if (m.owner==tid) { u64 kind=loadN(s,a+16,32,true).c; return kind==1; } return false; }
static void mutexAcquire(State& s, Thread& t, u64 a) { auto& m=mtxOf(s,a); m.owner=t.id; m.cnt++; vcJoin(t.vc,m.vc); }
static void mutexRelease(State& s, Thread& t, u64 a) { auto& m=mtxOf(s,a); if (m.owner!=t.id) fail(s,"lock","unlock of a mutex not owned by this thread"); if (--m.cnt==0) { m.owner=-1; } m.vc=t.vc; t.vc[t.id]++; }

static void enabledChoices(State& s, std::vector<Choice>& out) {
    bool curEnabled=false; std::vector<Choice> all;
    for (auto& t : s.th) {
        if (t.done) continue;
        switch (t.pend) {
            case P_None: case P_Yield: case P_Start: all.push_back({t.id,0,0}); break;
            case P_Lock: if (mutexFree(s,t.addr,t.id)) all.push_back({t.id,0,0}); break;
            case P_Relock: if (mutexFree(s,t.addr2,t.id)) all.push_back({t.id,0,0}); break;
            case P_Join: if (t.addr<s.th.size() && s.th[t.addr].done) all.push_back({t.id,0,0}); break;
            case P_CondWait: if (s.spurious<opt.spurious && mutexFree(s,t.addr2,t.id)) all.push_back({t.id,2,0}); break;
            case P_TimedWait: if (mutexFree(s,t.addr2,t.id)) all.push_back({t.id,1,0}); break;
            case P_Notify: {
                std::vector<int> ws; for (auto& o : s.th) if (!o.done && (o.pend==P_CondWait||o.pend==P_TimedWait) && o.addr==t.addr) ws.push_back(o.id);
                if (t.addr2 || ws.size()<=1) all.push_back({t.id,0,-1}); else for (int w : ws) all.push_back({t.id,0,w});
                break; }
            default: break;
        }
    }
    for (auto& c : all) if (c.tid==s.cur && c.kind==0) curEnabled=true;
    Thread& ct=s.th[s.cur];
    bool spinning = ct.pend==P_Yield && (ct.addr==1 || (ct.addr==2 && ct.spin>40)); // a waiting loop: fair scheduling lets the others go on
    bool freeSwitch = !curEnabled || spinning || (ct.pend==P_Yield && ct.addr==1);
    if (spinning) { std::vector<Choice> r; for (auto& c : all) if (c.tid!=s.cur) r.push_back(c); bool n=false; for (auto& c : r) if (c.kind==0) n=true; if (n) all=r; }
    // timeouts only when nothing else can run, or within the spurious budget
    bool normal=false; for (auto& c : all) if (c.kind==0) normal=true;
    for (auto& c : all) if (c.tid==s.cur && c.kind==0) out.push_back(c);
    for (auto& c : all) {
        if (c.tid==s.cur && c.kind==0) continue;
        if (c.kind==1 && normal && s.spurious>=opt.spurious) continue;
        if (!freeSwitch && c.tid!=s.cur && s.preemptions>=opt.preempt) continue;
        out.push_back(c);
    }
}
static void applyChoice(State& s, const Choice& c) {
    std::vector<Choice> tmp;
    Thread& ct=s.th[s.cur];
    bool curEnabled=false;
    if (!ct.done) { switch (ct.pend) { case P_None: case P_Yield: case P_Start: case P_Notify: curEnabled=true; break; case P_Lock: curEnabled=mutexFree(s,ct.addr,ct.id); break; case P_Relock: curEnabled=mutexFree(s,ct.addr2,ct.id); break; case P_Join: curEnabled=s.th[ct.addr].done; break; default: break; } }
    if (c.tid!=s.cur && curEnabled && !(ct.pend==P_Yield && (ct.addr==1 || (ct.addr==2 && ct.spin>40)))) s.preemptions++;
    if (c.kind && opt.spurious) s.spurious++;
    s.sched.push_back(c.tid | (c.kind<<8) | ((c.arg+1)<<16));
    s.cur=c.tid;
    Thread& t=s.th[c.tid];
    PendKind p=t.pend; t.pend=P_None;
    switch (p) {
        case P_None: break;
        case P_Start: break;
        case P_Yield: if (t.addr==2) t.granted=true; else retv(s,t,CV(t.retv)); break;
        case P_Lock: mutexAcquire(s,t,t.addr); retv(s,t,CV(0)); break;
        case P_Relock: mutexAcquire(s,t,t.addr2); mtxOf(s,t.addr2).cnt=t.condStage; retv(s,t,CV(t.retv)); break;
        case P_CondWait: mutexAcquire(s,t,t.addr2); mtxOf(s,t.addr2).cnt=t.condStage; retv(s,t,CV(0)); break;
        case P_TimedWait: mutexAcquire(s,t,t.addr2); mtxOf(s,t.addr2).cnt=t.condStage; retv(s,t,CV(110)); break;
        case P_Join: { vcJoin(t.vc,s.th[t.addr].vc); retv(s,t,CV(0)); break; }
        case P_Notify:
            for (auto& o : s.th) if (!o.done && (o.pend==P_CondWait||o.pend==P_TimedWait) && o.addr==t.addr) { if (t.addr2 || c.arg<0 || c.arg==o.id) { o.pend=P_Relock; o.retv=0; if (!t.addr2) break; } }
            retv(s,t,CV(0)); break;
        default: break;
    }
}
static void schedule(State& s) {
    Thread& st=s.th[s.cur]; if (st.pend==P_Yield && (st.addr==1||st.addr==2)) ++st.spin; else st.spin=0;
    std::vector<Choice> ch; enabledChoices(s,ch);
    ++nSchedPoints;
    if (ch.empty()) {
        std::string m="deadlock: ";
        for (auto& t : s.th) if (!t.done) { m += "T"+std::to_string(t.id)+(t.pend==P_Lock||t.pend==P_Relock?" waits for a mutex":t.pend==P_CondWait?" waits on a condition variable":t.pend==P_Join?" joins":" blocked")+"; "; }
        fail(s,"deadlock",m);
    }
    for (size_t i=1;i<ch.size();++i) { State* o=cloneState(s); ++nSchedForks; applyChoice(*o,ch[i]); pushWork(o); }
    applyChoice(s,ch[0]);
}

// ---------------------------------------------------------------- exceptions
static std::string symName(State& s, u64 a) { bool g; MemObj** p=findObj(s,a,g); return p && (*p)->name ? demangle((*p)->name) : hex(a); }
static u64 tvSi,tvVmi,tvPtr;
static bool tiMatch(State& s, u64 thrown, u64 want, u64 obj, u64& adj) {
    if (thrown==want) { adj=obj; return true; }
    u64 vt=loadN(s,thrown,64,true).c;
    if (vt==tvSi) return tiMatch(s,loadN(s,thrown+16,64,true).c,want,obj,adj);
    if (vt==tvVmi) {
        u64 n=loadN(s,thrown+20,32,true).c;
        for (u64 i=0;i<n;++i) {
            u64 b=loadN(s,thrown+24+16*i,64,true).c; i64 of=(i64)loadN(s,thrown+32+16*i,64,true).c;
            if (!(of&2)) continue;
            i64 off=of>>8;
            u64 sub=obj;
            if (of&1) { u64 vp=loadN(s,obj,64,true).c; sub=obj+(i64)loadN(s,vp+off,64,true).c; } else sub=obj+off;
            if (tiMatch(s,b,want,sub,adj)) return true;
        }
    }
    return false;
}
// 0 none, 1 cleanup, 2 handler
static int matchPad(State& s, const LandingPadInst* lp, u64 ti, u64 obj, u64& adj, u64& sel) {
    for (unsigned i=0;i<lp->getNumClauses();++i) {
        Constant* c=lp->getClause(i);
        if (lp->isCatch(i)) {
            u64 a=constScalar(c).c;
            if (!a) { adj=obj; if (ti && loadN(s,ti,64,true).c==tvPtr) adj=loadN(s,obj,64,true).c; sel=0x7ffffff0; return 2; }
            if (tiMatch(s,ti,a,obj,adj)) { if (loadN(s,ti,64,true).c==tvPtr) adj=loadN(s,obj,64,true).c; sel=a&0x7fffffff; return 2; }
        } else {
            bool allowed=false; u64 ad2;
            if (!isa<ConstantAggregateZero>(c)) for (unsigned k=0;k<cast<ArrayType>(c->getType())->getNumElements();++k) { u64 a=constScalar(c->getAggregateElement(k)).c; if (!a || tiMatch(s,ti,a,obj,ad2)) allowed=true; }
            if (!allowed) { adj=obj; sel=(u64)(u32)-1; return 2; }
        }
    }
    return lp->isCleanup() ? 1 : 0;
}
static const LandingPadInst* padOf(Frame& f) {
    if (f.ip >= (int)f.f->blocks[f.bb].insts.size()) return nullptr;
    const DInst& di=f.f->blocks[f.bb].insts[f.ip];
    if (di.op!=O_Invoke) return nullptr;
    for (auto& x : f.f->blocks[di.t2].insts) if (x.op==O_Landing) return cast<LandingPadInst>(x.I);
    return nullptr;
}
static void unwindPhase2(State& s, Thread& t, u64 obj, u64 ti) {
    while (!t.st.empty()) {
        Frame& f=t.st.back();
        if (auto* lp=padOf(f)) {
            u64 adj=obj, sel=0;
            int m=matchPad(s,lp,ti,obj,adj,sel);
            if (m) {
                if (m==2) storeN(s,obj-56,CV(adj),64,true);
                int bb=f.f->blocks[f.bb].insts[f.ip].t2;
                jump(s,t,f,bb);
                t.excPtr=obj; t.excSel=m==2?sel:0;
                return;
            }
        }
        freeStack(s,f);
        t.st.pop_back();
    }
    fail(s,"terminate","unwound past the bottom of the stack");
}
static void startUnwind(State& s, Thread& t, u64 obj) {
    u64 ti=loadN(s,obj-64,64,true).c;
    bool handler=false;
    for (int i=(int)t.st.size()-1;i>=0 && !handler;--i) if (auto* lp=padOf(t.st[i])) { u64 adj,sel; if (matchPad(s,lp,ti,obj,adj,sel)==2) handler=true; }
    if (!handler) fail(s,"terminate","uncaught exception of type "+symName(s,ti));
    unwindPhase2(s,t,obj,ti);
}

// ---------------------------------------------------------------- builtins
#define BARGS State& s, Thread& t, const DInst& di, std::vector<Val>& a
static void setRet(Thread& t, const DInst& di, Val v) { if (di.dst>=0) t.st.back().regs[di.dst]=v; }
static u64 allocHeap(State& s, u64 n, int how, const char* nm, u64 align=16, bool zero=false) { MemObj* o=newObj(s,n,OK_Heap,!zero,nm,align); o->how=(uint8_t)how; s.heapLive++; return o->base; }
static void freeHow(State& s, u64 a, int how, const char* what) {
    if (!a) return;
    bool g; MemObj** p=findObj(s,a,g);
    if (p && !g && (*p)->kind==OK_Heap && (*p)->base==a && (*p)->how!=how) fail(s,"memory",std::string("mismatched deallocation via ")+what);
    if (p && !g && s.mt && opt.race && (*p)->kind==OK_Heap && (*p)->base==a && (*p)->size) { MemObj* o=writable(s,p,g); raceAccess(s,o,0,o->size,true); }
    freeObj(s,a,what);
}
static bool b_malloc(BARGS) { u64 n=concretize(s,a[0],64); setRet(t,di,CV(allocHeap(s,n,1,"malloc"))); return false; }
static bool b_calloc(BARGS) { u64 n=concretize(s,a[0],64), m=concretize(s,a[1],64); setRet(t,di,CV(allocHeap(s,n*m,1,"calloc",16,true))); return false; }
static bool b_realloc(BARGS) { u64 p=concretize(s,a[0],64), n=concretize(s,a[1],64); u64 q=allocHeap(s,n,1,"realloc"); if (p) { bool g; MemObj** o=findObj(s,p,g); if (!o) fail(s,"memory","invalid realloc"); copyMem(s,q,p,std::min<u64>((*o)->size,n)); freeHow(s,p,1,"realloc"); } setRet(t,di,CV(q)); return false; }
static bool b_free(BARGS) { freeHow(s,concretize(s,a[0],64),1,"free"); return false; }
static bool b_new(BARGS) { u64 n=concretize(s,a[0],64); setRet(t,di,CV(allocHeap(s,n,2,"new"))); return false; }
static bool b_newa(BARGS) { u64 n=concretize(s,a[0],64); setRet(t,di,CV(allocHeap(s,n,3,"new[]"))); return false; }
static bool b_newal(BARGS) { u64 n=concretize(s,a[0],64), al=concretize(s,a[1],64); setRet(t,di,CV(allocHeap(s,n,2,"new",al))); return false; }
static bool b_delete(BARGS) { freeHow(s,concretize(s,a[0],64),2,"delete"); return false; }
static bool b_deletea(BARGS) { freeHow(s,concretize(s,a[0],64),3,"delete[]"); return false; }
static bool memcmpCommon(BARGS, bool bc) {
    u64 n=concretize(s,a[2],64); u64 p=concretize(s,a[0],64), q=concretize(s,a[1],64);
    std::vector<Val> x, y; bool sym=false;
    for (u64 i=0;i<n;++i) { x.push_back(loadN(s,p+i,8)); y.push_back(loadN(s,q+i,8)); if (x[i].e||y[i].e) sym=true; if (!x[i].e && !y[i].e && x[i].c!=y[i].c) { n=i+1; break; } }
    if (!sym) { int r=0; for (u64 i=0;i<n;++i) if (x[i].c!=y[i].c) { r = x[i].c<y[i].c?-1:1; break; } setRet(t,di,CV((u32)r)); return false; }
    E r=X.con(0,32);
    for (u64 i=n; i-- >0;) {
        E ex=toE(x[i],8), ey=toE(y[i],8); E eq=X.bin(K::Eq,ex,ey);
        if (bc) r=X.ite(eq,r,X.con(1,32));
        else r=X.ite(eq,r,X.ite(X.bin(K::Ult,ex,ey),X.con(0xffffffff,32),X.con(1,32)));
    }
    setRet(t,di,EV(r)); return false;
}
static bool b_memcmp(BARGS) { return memcmpCommon(s,t,di,a,false); }
static bool b_bcmp(BARGS) { return memcmpCommon(s,t,di,a,true); }
static void doMemset(State& s, u64 p, Val v, u64 n) {
    if (!n) return;
    bool g; MemObj** pp=access(s,p,n,true,g); MemObj* o=writable(s,pp,g); u64 off=p-o->base;
    if (s.mt && opt.race) raceAccess(s,o,off,n,true);
    if (!o->u.empty()) memset(&o->u[off],0,n);
    if (v.e) { if (o->s.empty()) o->s.assign(o->size,nullptr); for (u64 i=0;i<n;++i) o->s[off+i]=v.e; }
    else { memset(&o->b[off],(int)v.c,n); if (!o->s.empty()) for (u64 i=0;i<n;++i) o->s[off+i]=nullptr; }
}
static bool b_memcpy(BARGS) { u64 n=concretize(s,a[2],64), d=concretize(s,a[0],64), p=concretize(s,a[1],64); copyMem(s,d,p,n); setRet(t,di,CV(d)); return false; }
static bool b_memset(BARGS) { u64 n=concretize(s,a[2],64), d=concretize(s,a[0],64); Val v=a[1]; if (v.e) v=EV(X.extract(v.e,0,8)); else v.c&=0xff; doMemset(s,d,v,n); setRet(t,di,CV(d)); return false; }
static bool b_abort(BARGS) { fail(s,"abort","abort() called"); }
static bool b_assertfail(BARGS) { std::string e=readCStr(s,a[0].c); fail(s,"assert","assertion failed: "+e); }
static bool b_glibcxxassert(BARGS) { std::string e=a.size()>3 && a[3].c?readCStr(s,a[3].c):"?"; fail(s,"assert","libstdc++ precondition failed: "+e); }
static bool b_terminate(BARGS) { fail(s,"terminate","std::terminate called"); }
static bool b_purevirt(BARGS) { fail(s,"memory","pure virtual call"); }
static bool b_exit(BARGS) { fail(s,"abort","exit() called"); }
static bool b_unwind(BARGS) { startUnwind(s,t,concretize(s,a[0],64)); return true; }
static bool b_sfail(BARGS) { fail(s,readCStr(s,a[0].c),readCStr(s,a[1].c)); }
static bool b_suns(BARGS) { unsupported(s,"model: "+readCStr(s,a[0].c)); }
static std::string inName(State& s, u64 p) { std::string n=readCStr(s,p); int k=s.nameCount[n]++; return n+"#"+std::to_string(k); }
static E freshIn(State& s, const std::string& n, unsigned w) { E e=X.namedVar(n,w); s.ins.push_back({n,w,e}); return e; }
static bool b_symu(BARGS) { // u64 symx_u64(const char*, unsigned bits)
    unsigned w=(unsigned)a[1].c; E e=freshIn(s,inName(s,a[0].c),w); setRet(t,di,EV(X.zext(e,64))); return false; }
static bool b_symbuf(BARGS) { u64 p=concretize(s,a[0],64), n=concretize(s,a[1],64); std::string nm=readCStr(s,a[2].c); for (u64 i=0;i<n;++i) { int k=s.nameCount[nm]++; E e=freshIn(s,nm+"#"+std::to_string(k),8); storeN(s,p+i,EV(e),8); } return false; }
static bool b_choice(BARGS) { // int symx_choice(const char*, int n): forks over 0..n-1
    u64 n=concretize(s,a[1],32); std::string nm=inName(s,a[0].c);
    if (!n) throw Abort();
    if (n==1) { s.ins.push_back({nm,32,X.con(0,32)}); setRet(t,di,CV(0)); return false; }
    // a fresh variable below n: the branches on it are decided by the solver
    E e=X.namedVar(nm,8); s.ins.push_back({nm,8,e}); if (n>256) unsupported(s,"choice among more than 256"); if (n<256) { E c=X.bin(K::Ult,e,X.con(n,8)); if (!X.eval(c,s.model)) { std::vector<u64> m=s.model; if (solveQ(s,c,&m)!=1) throw Abort(); s.model=m; } addCons(s,c); }
    setRet(t,di,EV(X.zext(e,32))); return false; }
static bool b_assume(BARGS) {
    Val v=a[0]; if (v.e) v=EV(X.notE(X.mkEqC(v.e,0)));
    if (!v.e) { if (!v.c) { ++nAssumeKilled; throw Abort(); } return false; }
    if (X.eval(v.e,s.model)) { addCons(s,v.e); return false; }
    std::vector<u64> m=s.model; int r=solveQ(s,v.e,&m);
    if (r!=1) { if (r==0) ++nAssumeKilled; throw Abort(); }
    s.model=m; addCons(s,v.e); return false; }
static bool b_assert(BARGS) {
    std::string msg=readCStr(s,a[1].c); ++nAsserts; assertCount[msg]++;
    Val v=a[0]; if (v.e) v=EV(X.notE(X.mkEqC(v.e,0)));
    if (!v.e) { if (!v.c) fail(s,"property",msg); return false; }
    ++nAssertsSym; undefCheck(s,v.e);
    std::vector<u64> m=s.model; E ne=X.notE(v.e);
    ++SV->st.assertQueries;
    int r = X.eval(ne,s.model) ? 1 : solveQ(s,ne,&m);
    if (r==1) { reportError(s,"property",msg,m); if (stopAll) throw Abort(); std::vector<u64> m2=s.model; if (!X.eval(v.e,m2)) { if (solveQ(s,v.e,&m2)!=1) throw Abort(); s.model=m2; } }
    else if (r<0) throw Abort();
    addCons(s,v.e); return false; }
static bool b_assertmem(BARGS) { // symx_assert_mem(a,b,n,msg): equality of two buffers, always put to the solver as it is (no rewriting) when a byte is symbolic
    u64 p=concretize(s,a[0],64), q=concretize(s,a[1],64), n=concretize(s,a[2],64); std::string msg=readCStr(s,a[3].c); ++nAsserts; assertCount[msg]++;
    E acc=nullptr, eq=X.con(1,1); bool wrong=false;
    for (u64 i=0;i<n;++i) { Val x=loadN(s,p+i,8,true), y=loadN(s,q+i,8,true); if (!x.e && !y.e) { if (x.c!=y.c) wrong=true; continue; }
        E ex=toE(x,8), ey=toE(y,8), d=X.raw(K::Xor,8,0,ex,ey); acc=acc?X.raw(K::Or,8,0,acc,d):d; eq=X.bin(K::And,eq,X.bin(K::Eq,ex,ey)); }
    if (wrong) fail(s,"property",msg);
    if (!acc) return false;
    ++nAssertsSym; undefCheck(s,acc); ++SV->st.assertQueries;
    E ne=X.raw(K::Ult,1,0,X.con(0,8),acc); std::vector<u64> m=s.model;
    int r=solveQ(s,ne,&m);
    if (r==1) { reportError(s,"property",msg,m); if (stopAll) throw Abort(); if (eq->k==K::Const && !eq->c) throw Abort(); std::vector<u64> m2=s.model; if (!X.eval(eq,m2)) { if (solveQ(s,eq,&m2)!=1) throw Abort(); s.model=m2; } }
    else if (r<0) throw Abort();
    if (eq->k!=K::Const) addCons(s,eq);
    return false; }
static bool b_fails(BARGS) { return b_assert(s,t,di,a); }
static bool b_reach(BARGS) { s.reached.push_back(readCStr(s,a[0].c)); return false; }
static bool b_observe(BARGS) { u64 p=concretize(s,a[0],64), n=concretize(s,a[1],64); for (u64 i=0;i<n;++i) { Val v=loadN(s,p+i,8,true); s.obs.push_back({v.e,v.c}); } return false; }
static bool b_obsu(BARGS) { Val v=a[0]; for (int i=0;i<8;++i) { if (v.e) { E b=X.extract(v.e,i*8,8); s.obs.push_back({b->k==K::Const?nullptr:b, b->c}); } else s.obs.push_back({nullptr,(v.c>>(8*i))&0xff}); } return false; }
static bool b_engine(BARGS) { setRet(t,di,CV(1)); return false; }
static bool b_conc(BARGS) { u64 v=concretize(s,a[0],64); setRet(t,di,CV(v)); return false; }
static bool b_issym(BARGS) { setRet(t,di,CV(a[0].e?1:0)); return false; }
static bool b_heap(BARGS) { setRet(t,di,CV(s.heapLive)); return false; }
static bool b_hoststrto(BARGS) { // int symx_host_strto(const char*, int kind, void* out): concrete text, the host's conversion (C locale)
    std::string txt=readCStr(s,a[0].c); u64 kind=concretize(s,a[1],64)&0xff, out=concretize(s,a[2],64); unsigned char buf[16]; memset(buf,0,16); char* end=nullptr; int er; size_t n;
    errno=0;
    if (kind==0) { float f=strtof(txt.c_str(),&end); memcpy(buf,&f,4); n=4; } else if (kind==1) { double f=strtod(txt.c_str(),&end); memcpy(buf,&f,8); n=8; } else { long double f=strtold(txt.c_str(),&end); memcpy(buf,&f,10); n=16; }
    er=errno==ERANGE; for (size_t i=0;i<n;++i) storeN(s,out+i,CV(buf[i]),8);
    setRet(t,di,CV((u64)(end-txt.c_str())|(er?1u<<16:0))); return false; }
static bool b_hostfmt(BARGS) { // int symx_host_fmt(double, int conversion|flags, int precision, char out[400])
    double d; u64 bits=a[0].c; if (a[0].e) unsupported(s,"formatting a symbolic double"); memcpy(&d,&bits,8); u64 m=concretize(s,a[1],64); int prec=(int)concretize(s,a[2],64); u64 out=concretize(s,a[3],64);
    char f[16], buf[400]; snprintf(f,sizeof f,"%%%s%s%s%c",m&256?"+":"",m&512?"#":"",prec<0?"":".*",(char)m); int n=prec<0?snprintf(buf,sizeof buf,f,d):snprintf(buf,sizeof buf,f,prec,d); if (n>=(int)sizeof buf) unsupported(s,"long number text");
    for (int i=0;i<=n;++i) storeN(s,out+i,CV((u64)(unsigned char)buf[i]),8);
    setRet(t,di,CV((u64)n)); return false; }
static bool b_nop0(BARGS) { setRet(t,di,CV(0)); return false; }
static bool b_print(BARGS) { if (opt.verbose) fprintf(stderr,"[print] %s\n",readCStr(s,a[0].c).c_str()); return false; }
static bool b_printu(BARGS) { if (opt.verbose) fprintf(stderr,"[print] %s %lld%s\n",readCStr(s,a[0].c).c_str(),a[1].e?(long long)X.eval(a[1].e,s.model):(long long)a[1].c,a[1].e?" (sym)":""); return false; }
static bool b_prune(BARGS) { throw Abort(); }
static bool b_ite(BARGS) { // branch-free select of i64
    Val c=a[0]; if (!c.e) { setRet(t,di,c.c?a[1]:a[2]); return false; }
    setRet(t,di,EV(X.ite(X.notE(X.mkEqC(c.e,0)),toE(a[1],64),toE(a[2],64)))); return false; }
// a merged choice: does a valid value exist (query without forking)? returns 1 if cond may be true
static bool b_mayTrue(BARGS) { Val v=a[0]; if (!v.e) { setRet(t,di,CV(v.c?1:0)); return false; } E c=X.notE(X.mkEqC(v.e,0)); std::vector<u64> m=s.model; int r=X.eval(c,s.model)?1:solveQ(s,c,&m); setRet(t,di,CV(r==1)); return false; }

// threads
static bool b_pcreate(BARGS) { // (pthread_t*, attr*, fn, arg)
    u64 out=a[0].c, fn=concretize(s,a[2],64); Val arg=a[3];
    auto it=addrFn.find(fn); if (it==addrFn.end()) fail(s,"memory","pthread_create of invalid function");
    int id=(int)s.th.size(); if (id>6) unsupported(s,"too many threads");
    storeN(s,out,CV((u64)id+1),64);
    s.mt=true;
    Thread nt; nt.id=id; nt.pend=P_Start; nt.vc=t.vc; nt.vc.resize(std::max<size_t>(nt.vc.size(),id+1),0); nt.vc[id]=1;
    t.vc[t.id]++;
    std::vector<Val> args{arg}; pushFrame(s,nt,it->second,args,nullptr);
    int cur=t.id; s.th.push_back(std::move(nt));
    Thread& me=s.th[cur]; me.pend=P_Yield; me.addr=0; me.retv=0;
    schedule(s); return true; }
static bool b_pjoin(BARGS) { u64 h=concretize(s,a[0],64); if (h<1 || h>s.th.size()) fail(s,"lock","pthread_join of invalid thread"); t.pend=P_Join; t.addr=h-1; schedule(s); return true; }
static bool b_pself(BARGS) { setRet(t,di,CV((u64)t.id+1)); return false; }
static bool b_mlock(BARGS) { u64 m=concretize(s,a[0],64);
    if (aliveThreads(s)==1) { if (!mutexFree(s,m,t.id)) fail(s,"deadlock","thread locks a mutex it already owns, or one left locked"); mutexAcquire(s,t,m); setRet(t,di,CV(0)); return false; }
    if (!mutexFree(s,m,t.id) && mtxOf(s,m).owner==t.id) fail(s,"deadlock","thread locks a non-recursive mutex it already owns");
    t.pend=P_Lock; t.addr=m; schedule(s); return true; }
static bool b_mtrylock(BARGS) { u64 m=concretize(s,a[0],64);
    if (aliveThreads(s)>1 && !t.granted) { t.pend=P_Yield; t.addr=2; schedule(s); return true; }
    t.granted=false;
    if (mutexFree(s,m,t.id)) { mutexAcquire(s,t,m); setRet(t,di,CV(0)); } else setRet(t,di,CV(16)); return false; }
static bool b_munlock(BARGS) { mutexRelease(s,t,concretize(s,a[0],64)); setRet(t,di,CV(0)); return false; }
static bool condWait(State& s, Thread& t, u64 c, u64 m, bool timed) {
    if (aliveThreads(s)>1 && !t.granted) { t.pend=P_Yield; t.addr=2; schedule(s); return true; } // a notification may come just before the wait
    t.granted=false;
    auto& mx=mtxOf(s,m); if (mx.owner!=t.id) fail(s,"lock","condition wait without holding the mutex");
    t.condStage=mx.cnt; mx.cnt=1; mutexRelease(s,t,m);
    t.pend=timed?P_TimedWait:P_CondWait; t.addr=c; t.addr2=m; t.retv=0; schedule(s); return true; }
static bool b_cwait(BARGS) { return condWait(s,t,concretize(s,a[0],64),concretize(s,a[1],64),false); }
static bool b_ctimed(BARGS) { return condWait(s,t,concretize(s,a[0],64),concretize(s,a[1],64),true); }
static bool b_csignal(BARGS) { if (aliveThreads(s)==1) { setRet(t,di,CV(0)); return false; } t.pend=P_Notify; t.addr=concretize(s,a[0],64); t.addr2=0; schedule(s); return true; }
static bool b_cbroadcast(BARGS) { if (aliveThreads(s)==1) { setRet(t,di,CV(0)); return false; } t.pend=P_Notify; t.addr=concretize(s,a[0],64); t.addr2=1; schedule(s); return true; }
static bool b_yield(BARGS) { if (aliveThreads(s)==1) { setRet(t,di,CV(0)); return false; } t.pend=P_Yield; t.addr=1; t.retv=0; schedule(s); return true; }
static bool b_syncpt(BARGS) { if (aliveThreads(s)==1) { setRet(t,di,CV(0)); return false; } t.pend=P_Yield; t.addr=0; t.retv=0; schedule(s); return true; }
// block until *(u32*)addr != 0 (written with symx_wake by another thread): modelled as a binary semaphore object
static bool b_tid(BARGS) { setRet(t,di,CV(t.id)); return false; }
static bool b_owner(BARGS) { int held=0; for (auto& p : s.mtx) if (p.second.owner==t.id) ++held; setRet(t,di,CV(held)); return false; }

static void initBuiltins() {
    auto& B=builtins;
    B["malloc"]=b_malloc; B["calloc"]=b_calloc; B["realloc"]=b_realloc; B["free"]=b_free;
    B["_Znwm"]=b_new; B["_ZnwmRKSt9nothrow_t"]=b_new; B["_Znam"]=b_newa; B["_ZnamRKSt9nothrow_t"]=b_newa; B["_ZnwmSt11align_val_t"]=b_newal;
    B["_ZdlPv"]=b_delete; B["_ZdlPvm"]=b_delete; B["_ZdlPvRKSt9nothrow_t"]=b_delete; B["_ZdlPvSt11align_val_t"]=b_delete; B["_ZdlPvmSt11align_val_t"]=b_delete; B["_ZdaPv"]=b_deletea; B["_ZdaPvm"]=b_deletea; B["_ZdaPvRKSt9nothrow_t"]=b_deletea;
    B["memcmp"]=b_memcmp; B["bcmp"]=b_bcmp; B["memcpy"]=b_memcpy; B["memmove"]=b_memcpy; B["memset"]=b_memset;
    B["abort"]=b_abort; B["__assert_fail"]=b_assertfail; B["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=b_glibcxxassert; B["_ZSt9terminatev"]=b_terminate; B["__cxa_pure_virtual"]=b_purevirt; B["exit"]=b_exit; B["_exit"]=b_exit;
    B["__symx_unwind"]=b_unwind; B["__symx_fail"]=b_sfail; B["__symx_unsupported"]=b_suns;
    B["symx_u64"]=b_symu; B["symx_buf"]=b_symbuf; B["symx_choice"]=b_choice; B["symx_assume"]=b_assume; B["symx_assert"]=b_assert; B["symx_assert_mem"]=b_assertmem; B["symx_reach"]=b_reach;
    B["symx_observe"]=b_observe; B["symx_observe_u64"]=b_obsu; B["symx_is_engine"]=b_engine; B["symx_concretize"]=b_conc; B["symx_is_symbolic"]=b_issym; B["symx_heap_live"]=b_heap; B["symx_print"]=b_print; B["symx_print_u64"]=b_printu; B["symx_prune"]=b_prune; B["symx_ite"]=b_ite; B["symx_may"]=b_mayTrue;
    B["symx_host_strto"]=b_hoststrto; B["symx_host_fmt"]=b_hostfmt; B["symx_sync_point"]=b_syncpt; B["symx_tid"]=b_tid; B["symx_locks_held"]=b_owner;
    B["pthread_create"]=b_pcreate; B["pthread_join"]=b_pjoin; B["pthread_self"]=b_pself; B["pthread_mutex_lock"]=b_mlock; B["pthread_mutex_trylock"]=b_mtrylock; B["pthread_mutex_unlock"]=b_munlock;
    B["pthread_cond_wait"]=b_cwait; B["pthread_cond_timedwait"]=b_ctimed; B["pthread_cond_clockwait"]=b_ctimed; B["pthread_cond_signal"]=b_csignal; B["pthread_cond_broadcast"]=b_cbroadcast; B["sched_yield"]=b_yield; B["nanosleep"]=b_yield; B["usleep"]=b_yield;
    for (auto n : {"pthread_mutex_init","pthread_mutex_destroy","pthread_cond_init","pthread_cond_destroy","pthread_mutexattr_init","pthread_mutexattr_destroy","pthread_detach"}) B[n]=b_nop0;
}

// ---------------------------------------------------------------- arithmetic
static u64 evalBin64(K k, u64 x, u64 y, unsigned w) {
    u64 m=mask64(w);
    switch (k) {
        case K::Add: return (x+y)&m; case K::Sub: return (x-y)&m; case K::Mul: return (x*y)&m; case K::And: return x&y; case K::Or: return x|y; case K::Xor: return x^y;
        case K::Shl: return y>=w?0:(x<<y)&m; case K::LShr: return y>=w?0:x>>y; case K::AShr: return y>=w?((sx(x,w)<0)?m:0):((u64)(sx(x,w)>>y))&m;
        default: return (u64)ExprMgr::evalBin(k,x,y,w);
    }
}
static E icmpE(unsigned p, E x, E y) {
    switch (p) {
        case CmpInst::ICMP_EQ: return X.bin(K::Eq,x,y); case CmpInst::ICMP_NE: return X.notE(X.bin(K::Eq,x,y));
        case CmpInst::ICMP_ULT: return X.bin(K::Ult,x,y); case CmpInst::ICMP_ULE: return X.bin(K::Ule,x,y); case CmpInst::ICMP_UGT: return X.bin(K::Ult,y,x); case CmpInst::ICMP_UGE: return X.bin(K::Ule,y,x);
        case CmpInst::ICMP_SLT: return X.bin(K::Slt,x,y); case CmpInst::ICMP_SLE: return X.bin(K::Sle,x,y); case CmpInst::ICMP_SGT: return X.bin(K::Slt,y,x); default: return X.bin(K::Sle,y,x);
    }
}
static bool icmp64(unsigned p, u64 x, u64 y, unsigned w) {
    i64 a=sx(x,w), b=sx(y,w);
    switch (p) { case CmpInst::ICMP_EQ: return x==y; case CmpInst::ICMP_NE: return x!=y; case CmpInst::ICMP_ULT: return x<y; case CmpInst::ICMP_ULE: return x<=y; case CmpInst::ICMP_UGT: return x>y; case CmpInst::ICMP_UGE: return x>=y; case CmpInst::ICMP_SLT: return a<b; case CmpInst::ICMP_SLE: return a<=b; case CmpInst::ICMP_SGT: return a>b; default: return a>=b; }
}
static long double toFP(u128 v, unsigned w) { if (w==32) { float f; u32 x=(u32)v; memcpy(&f,&x,4); return f; } if (w==64) { double d; u64 x=(u64)v; memcpy(&d,&x,8); return d; } long double l=0; memcpy(&l,&v,10); return l; }
static u128 fromFP(long double l, unsigned w) { u128 v=0; if (w==32) { float f=(float)l; memcpy(&v,&f,4); } else if (w==64) { double d=(double)l; memcpy(&v,&d,8); } else memcpy(&v,&l,10); return v; }

static E eltE(const Val& v, unsigned i, unsigned ew, unsigned total) { return X.extract(toE(v,total),i*ew,ew); }

static Val doIntrinsic(State& s, Thread& t, const DInst& di, std::vector<Val>& a, bool& advanced);

static void doCall(State& s, Thread& t, const DInst& di) {
    Frame& f=t.st.back();
    Function* F=di.callee;
    if (di.intr==-2) { finishCall(s,t,nullptr,0); return; }
    std::vector<Val> args; args.reserve(di.ops.size());
    size_t nargOps = F ? di.ops.size() : di.imm;
    for (size_t i=0;i<nargOps;++i) args.push_back(rd(f,di.ops[i]));
    if (!F) {
        u64 fa=concretize(s,rd(f,di.ops[di.imm]),64);
        auto it=addrFn.find(fa);
        if (it==addrFn.end()) fail(s,"memory","call through an invalid function pointer");
        F=it->second;
    }
    if (di.intr>0) {
        bool adv=false; Val v=doIntrinsic(s,t,di,args,adv);
        if (adv) return;
        if (di.nslots==1) { setRet(t,di,v); }
        if (di.op==O_Invoke) jump(s,t,t.st.back(),di.t1); else t.st.back().ip++;
        return;
    }
    if (!F->isDeclaration()) {
        for (size_t i=0;i<di.byval.size();++i) if (di.byval[i]) { MemObj* o=newObj(s,di.byval[i],OK_Stack,false,"byval"); u64 nb=o->base; copyMem(s,nb,args[di.argLayout[i].first].c,di.byval[i]); args[di.argLayout[i].first]=CV(nb); t.st.back().allocas.push_back(nb); }
        pushFrame(s,t,F,args,&di);
        return;
    }
    auto it=builtins.find(F->getName().str());
    if (it==builtins.end()) { unsupported(s,"call to unmodelled external function "+demangle(F->getName().str())); }
    if (it->second(s,t,di,args)) return;
    Thread& t2=s.th[s.cur];
    if (di.op==O_Invoke) jump(s,t2,t2.st.back(),di.t1); else t2.st.back().ip++;
}

static Val doIntrinsic(State& s, Thread& t, const DInst& di, std::vector<Val>& a, bool& advanced) {
    unsigned w=di.leafW.empty()?0:di.leafW[0];
    auto two=[&](Val x, Val y) { Val v[2]={x,y}; finishCall(s,t,v,2); advanced=true; };
    switch ((Intrinsic::ID)di.intr) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::var_annotation:
        case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::assume: return CV(0);
        case Intrinsic::invariant_start: case Intrinsic::stacksave: return CV(0);
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: b_memcpy(s,t,di,a); return CV(0);
        case Intrinsic::memset: b_memset(s,t,di,a); return CV(0);
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: return a[0];
        case Intrinsic::threadlocal_address: {
            auto it=tlsInit.find(a[0].c); if (t.id==0 || it==tlsInit.end()) return a[0];
            for (auto& p : s.tls) if (p.first.first==a[0].c && p.first.second==t.id) return CV(p.second);
            MemObj* o=newObj(s,std::max<size_t>(it->second.size(),1),OK_Heap,false,"thread-local variable"); o->how=8; std::copy(it->second.begin(),it->second.end(),o->b.begin()); s.tls.push_back({{a[0].c,t.id},o->base}); return CV(o->base); }
        case Intrinsic::vastart: { u64 p=concretize(s,a[0],64); storeN(s,p,CV(48),32); storeN(s,p+4,CV(176),32); storeN(s,p+8,CV(t.st.back().va),64); storeN(s,p+16,CV(0),64); return CV(0); }
        case Intrinsic::vaend: return CV(0);
        case Intrinsic::vacopy: copyMem(s,concretize(s,a[0],64),concretize(s,a[1],64),24); return CV(0);
        case Intrinsic::is_constant: return CV(0);
        case Intrinsic::objectsize: return CV(mask64(w));
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
            static const std::map<u64,const char*> nm={{0,"signed addition overflow"},{3,"division by zero or overflow"},{7,"float cast overflow"},{10,"invalid value load (bool/enum)"},{11,"missing return"},{12,"signed multiplication overflow"},{13,"negation overflow"},{16,"out-of-bounds index"},{17,"pointer overflow"},{20,"invalid shift"},{21,"signed subtraction overflow"},{4,"unreachable reached"},{5,"invalid builtin"}};
            u64 k=a.empty()?999:a[0].c; auto it=nm.find(k);
            // constant operands of std headers never get here: the trap is in code compiled from the harness TU
            fail(s,"ub",std::string("undefined behaviour: ")+(it==nm.end()?("trap "+std::to_string(k)).c_str():it->second)); }
        case Intrinsic::eh_typeid_for: return CV(a[0].c&0x7fffffff);
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            if (di.nelt>1) break;
            E x=toE(a[0],w), y=toE(a[1],w); E c;
            switch ((Intrinsic::ID)di.intr) { case Intrinsic::umax: c=X.bin(K::Ult,y,x); break; case Intrinsic::umin: c=X.bin(K::Ult,x,y); break; case Intrinsic::smax: c=X.bin(K::Slt,y,x); break; default: c=X.bin(K::Slt,x,y); }
            return mkVal(X.ite(c,x,y)); }
        case Intrinsic::abs: { E x=toE(a[0],w); return mkVal(X.ite(X.bin(K::Slt,x,X.con(0,w)),X.bin(K::Sub,X.con(0,w),x),x)); }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            E x=toE(a[0],w), y=toE(a[1],w); Intrinsic::ID id=(Intrinsic::ID)di.intr;
            bool sg = id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow;
            K k = id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow?K::Add: id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow?K::Sub:K::Mul;
            unsigned ew = k==K::Mul ? 2*w : w+1;
            if (ew>128) { unsupported(s,"overflow intrinsic too wide"); }
            E xx=sg?X.sext(x,ew):X.zext(x,ew), yy=sg?X.sext(y,ew):X.zext(y,ew);
            E r=X.bin(k,xx,yy), lo=X.bin(k,x,y);
            E ov=X.notE(X.bin(K::Eq,r,sg?X.sext(lo,ew):X.zext(lo,ew)));
            two(mkVal(lo),mkVal(ov)); return CV(0); }
        case Intrinsic::usub_sat: { E x=toE(a[0],w), y=toE(a[1],w); return mkVal(X.ite(X.bin(K::Ult,x,y),X.con(0,w),X.bin(K::Sub,x,y))); }
        case Intrinsic::uadd_sat: { E x=toE(a[0],w), y=toE(a[1],w); E r=X.bin(K::Add,x,y); return mkVal(X.ite(X.bin(K::Ult,r,x),X.con128(mask128(w),w),r)); }
        case Intrinsic::ctpop: { E x=toE(a[0],w); E r=X.con(0,w); for (unsigned i=0;i<w;++i) r=X.bin(K::Add,r,X.zext(X.extract(x,i,1),w)); return mkVal(r); }
        case Intrinsic::cttz: { E x=toE(a[0],w); E r=X.con(w,w); for (unsigned i=w; i-- >0;) r=X.ite(X.extract(x,i,1),X.con(i,w),r); return mkVal(r); }
        case Intrinsic::ctlz: { E x=toE(a[0],w); E r=X.con(w,w); for (unsigned i=0;i<w;++i) r=X.ite(X.extract(x,i,1),X.con(w-1-i,w),r); return mkVal(r); }
        case Intrinsic::bswap: { E x=toE(a[0],w); E r=nullptr; for (unsigned i=0;i<w/8;++i) { E b=X.extract(x,i*8,8); r=r?X.concat(r,b):b; } return mkVal(r); }
        case Intrinsic::bitreverse: { E x=toE(a[0],w); E r=nullptr; for (unsigned i=0;i<w;++i) { E b=X.extract(x,i,1); r=r?X.concat(r,b):b; } return mkVal(r); }
        case Intrinsic::fshl: case Intrinsic::fshr: { u64 k=concretize(s,a[2],w)%w; E x=toE(a[0],w), y=toE(a[1],w); bool l=di.intr==(int)Intrinsic::fshl;
            if (!k) return mkVal(l?x:y); if (!l) k=w-k; return mkVal(X.bin(K::Or,X.bin(K::Shl,x,X.con(k,w)),X.bin(K::LShr,y,X.con(w-k,w)))); }
        case Intrinsic::fabs: { u128 c; if (isConc(a[0],c)) return wideConst(fromFP(fabsl(toFP(c,w)),w),w); break; }
        case Intrinsic::ceil: { u128 c; if (isConc(a[0],c)) return wideConst(fromFP(ceill(toFP(c,w)),w),w); break; }
        case Intrinsic::floor: { u128 c; if (isConc(a[0],c)) return wideConst(fromFP(floorl(toFP(c,w)),w),w); break; }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
            unsigned tot=di.argW[0]; unsigned n=tot/w; E r=nullptr; K k=di.intr==(int)Intrinsic::vector_reduce_or?K::Or:di.intr==(int)Intrinsic::vector_reduce_and?K::And:di.intr==(int)Intrinsic::vector_reduce_add?K::Add:K::Xor;
            for (unsigned i=0;i<n;++i) { E e=eltE(a[0],i,w,tot); r=r?X.bin(k,r,e):e; } return mkVal(r); }
        default: break;
    }
    unsupported(s,"intrinsic "+di.callee->getName().str());
}

// atomic scheduling point: returns true if the thread has been descheduled (instruction will re-execute)
static bool atomicPoint(State& s, Thread& t, unsigned w) {
    if (!opt.atomicPreempt || !s.mt || w>32) return false;
    if (t.granted) { t.granted=false; return false; }
    if (aliveThreads(s)<2) return false;
    t.pend=P_Yield; t.addr=2; schedule(s);
    return true;
}
static bool isGuard(State& s, u64 a) { bool g; MemObj** p=findObj(s,a,g); return p && g && (*p)->name && !strncmp((*p)->name,"_ZGV",4); } // of a static local: no scheduling point
static void atomAcq(State& s, Thread& t, u64 a) { for (auto& p : s.atomVC) if (p.first==a) { vcJoin(t.vc,p.second); return; } }
static void atomRel(State& s, Thread& t, u64 a) { for (auto& p : s.atomVC) if (p.first==a) { vcJoin(p.second,t.vc); t.vc[t.id]++; return; } s.atomVC.push_back({a,t.vc}); t.vc[t.id]++; }

static void threadDone(State& s, Thread& t) {
    t.done=true;
    for (auto& m : s.mtx) if (m.second.owner==t.id) { fail(s,"lock","thread ended holding a mutex"); }
    schedule(s);
}

static void pathEnd(State& s) {
    ++nPaths; maxStepsSeen=std::max(maxStepsSeen,s.steps);
    for (auto& r : s.reached) reachCount[r]++;
    // reservoir sample
    static u64 rng=opt.seed*6364136223846793005ull+1442695040888963407ull;
    u64 idx=nPaths-1; int slot=-1;
    if ((int)samples.size()<opt.samples) { samples.emplace_back(); slot=(int)samples.size()-1; }
    else if (opt.samples>0) { rng=rng*6364136223846793005ull+1442695040888963407ull; u64 k=(rng>>33)%(idx+1); if (k<(u64)opt.samples) slot=(int)k; }
    if (slot>=0) {
        PathRec& p=samples[slot]; p.inputs=inputsOf(s,s.model); p.sched=s.sched; p.idx=idx; p.obs.clear();
        static const char* hx="0123456789abcdef";
        for (auto& o : s.obs) { unsigned b = o.first ? (unsigned)X.eval(o.first,s.model) : (unsigned)o.second; p.obs+=hx[(b>>4)&15]; p.obs+=hx[b&15]; }
    }
}

static void step(State& s) {
    Thread& t=s.th[s.cur];
    Frame& f=t.st.back();
    const DInst& di=f.f->blocks[f.bb].insts[f.ip];
    switch (di.op) {
        case O_Bin: {
            Val x=rd(f,di.ops[0]), y=rd(f,di.ops[1]); K k=(K)di.sub; unsigned w=di.w;
            if (di.nelt>1) { unsigned tot=w*di.nelt; E r=nullptr; for (unsigned i=0;i<di.nelt;++i) { E e=X.bin(k,eltE(x,i,w,tot),eltE(y,i,w,tot)); r=r?X.concat(e,r):e; } f.regs[di.dst]=mkVal(r); f.ip++; return; }
            if (k==K::UDiv||k==K::SDiv||k==K::URem||k==K::SRem) {
                u128 c; if (isConc(y,c)) { if (!c) fail(s,"ub","division by zero"); }
                else { E z=X.mkEqC(y.e,0); if (decide(s,EV(z))) fail(s,"ub","division by zero"); }
            }
            if (!x.e && !y.e && w<=64) f.regs[di.dst]=CV(evalBin64(k,x.c,y.c,w));
            else f.regs[di.dst]=mkVal(X.bin(k,toE(x,w),toE(y,w)));
            f.ip++; return; }
        case O_ICmp: {
            Val x=rd(f,di.ops[0]), y=rd(f,di.ops[1]); unsigned w=di.w2;
            if (di.nelt>1) { unsigned tot=w*di.nelt; E r=nullptr; for (unsigned i=0;i<di.nelt;++i) { E e=icmpE(di.sub,eltE(x,i,w,tot),eltE(y,i,w,tot)); r=r?X.concat(e,r):e; } f.regs[di.dst]=mkVal(r); f.ip++; return; }
            if (!x.e && !y.e) f.regs[di.dst]=CV(icmp64(di.sub,x.c,y.c,w));
            else f.regs[di.dst]=mkVal(icmpE(di.sub,toE(x,w),toE(y,w)));
            f.ip++; return; }
        case O_Load: {
            Val p=rd(f,di.ops[0]);
            if (di.atomic) { u64 a=concretize(s,p,64); if (!(di.leafW[0]==8 && isGuard(s,a)) && atomicPoint(s,t,di.leafW[0])) return; Thread& t2=s.th[s.cur]; Val v=loadN(s,a,di.leafW[0],true); atomAcq(s,t2,a); Frame& f2=t2.st.back(); f2.regs[di.dst]=v; f2.ip++; return; }
            if (di.leafW.size()==1) { Val v=loadSym(s,p,di.leafW[0]); f.regs[di.dst]=v; }
            else { u64 a=concretize(s,p,64); for (size_t i=0;i<di.leafW.size();++i) f.regs[di.dst+i]=loadN(s,a+di.leafOff[i],di.leafW[i]); }
            f.ip++; return; }
        case O_Store: {
            u64 a=concretize(s,rd(f,di.ops[0]),64);
            if (di.atomic) { if (atomicPoint(s,t,di.leafW[0])) return; Thread& t2=s.th[s.cur]; Frame& f2=t2.st.back(); storeN(s,a,rd(f2,di.ops[1]),di.leafW[0],true); atomRel(s,t2,a); f2.ip++; return; }
            for (size_t i=0;i<di.leafW.size();++i) storeN(s,a+di.leafOff[i],rd(f,di.ops[1+i]),di.leafW[i]);
            f.ip++; return; }
        case O_Gep: {
            Val b=rd(f,di.ops[0]); u64 c=di.imm; E e=nullptr;
            for (auto& g : di.gep) { Val v=rd(f,g.first); unsigned w=g.second.second; if (!v.e) c += (u64)sx(v.c,w)*g.second.first; else { E x=X.bin(K::Mul,X.sext(v.e,64),X.con(g.second.first,64)); e=e?X.bin(K::Add,e,x):x; } }
            if (!e && !b.e) f.regs[di.dst]=CV(b.c+c);
            else { E r = b.e ? X.bin(K::Add,b.e,X.con(c,64)) : X.con(b.c+c,64); if (e) r=X.bin(K::Add,e,r); f.regs[di.dst]=EV(r); }
            f.ip++; return; }
        case O_Br: jump(s,t,f,di.t1); return;
        case O_CondBr: { Val c=rd(f,di.ops[0]); bool d = c.e ? decide(s,c) : (c.c&1); jump(s,t,f,d?di.t1:di.t2); return; }
        case O_Switch: {
            Val c=rd(f,di.ops[0]);
            if (!c.e) { int dst=di.t1; for (auto& k : di.cases) if (k.first==c.c) { dst=k.second; break; } jump(s,t,f,dst); return; }
            undefCheck(s,c.e);
            u64 v=(u64)X.eval(c.e,s.model); int dst=di.t1; for (auto& k : di.cases) if (k.first==v) { dst=k.second; break; }
            E cond=X.con(0,1);
            if (dst==di.t1) { E any=X.con(0,1); for (auto& k : di.cases) if (k.second!=dst) any=X.orB(any,X.mkEqC(c.e,k.first)); cond=X.notE(any); }
            else for (auto& k : di.cases) if (k.second==dst) cond=X.orB(cond,X.mkEqC(c.e,k.first));
            bool d=decide(s,EV(cond)); (void)d; // true under the current model
            jump(s,t,f,dst); return; }
        case O_Select: {
            Val c=rd(f,di.ops[0]); size_t n=di.leafW.size();
            if (di.w2>1) { // vector select
                unsigned ew=di.w, tot=ew*di.nelt; E r=nullptr; for (unsigned i=0;i<di.nelt;++i) { E e=X.ite(eltE(c,i,1,di.nelt),eltE(rd(f,di.ops[1]),i,ew,tot),eltE(rd(f,di.ops[2]),i,ew,tot)); r=r?X.concat(e,r):e; } f.regs[di.dst]=mkVal(r); f.ip++; return; }
            if (c.e && n==1 && !di.isPtr) { f.regs[di.dst]=mkVal(X.ite(c.e,toE(rd(f,di.ops[1]),di.leafW[0]),toE(rd(f,di.ops[2]),di.leafW[0]))); f.ip++; return; }
            bool d = c.e ? decide(s,c) : (c.c&1);
            for (size_t i=0;i<n;++i) f.regs[di.dst+i]=rd(f,di.ops[1+(d?0:n)+i]);
            f.ip++; return; }
        case O_Cast: {
            Val x=rd(f,di.ops[0]); unsigned w=di.w, w2=di.w2;
            switch (di.imm) {
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
                    auto one=[&](E e) { return di.imm==Instruction::Trunc?X.extract(e,0,w):di.imm==Instruction::ZExt?X.zext(e,w):X.sext(e,w); };
                    if (di.nelt>1) { E r=nullptr; for (unsigned i=0;i<di.nelt;++i) { E e=one(eltE(x,i,w2,w2*di.nelt)); r=r?X.concat(e,r):e; } f.regs[di.dst]=mkVal(r); break; }
                    if (!x.e && w<=64) { f.regs[di.dst]=CV(di.imm==Instruction::SExt ? ((u64)sx(x.c,w2))&mask64(w) : x.c & mask64(w)); break; }
                    f.regs[di.dst]=mkVal(one(toE(x,w2))); break; }
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
                    unsigned tw=w*di.nelt; if (x.e) { unsigned sw=x.e->w; f.regs[di.dst]=mkVal(tw<sw?X.extract(x.e,0,tw):X.zext(x.e,tw)); } else f.regs[di.dst]= tw<=64?CV(x.c & mask64(tw)):Val{X.con128(x.c,tw),0}; break; }
                default: {
                    u128 c; if (!isConc(x,c)) { unsupported(s,"symbolic floating-point conversion"); }
                    long double l; u128 r;
                    switch (di.imm) {
                        case Instruction::UIToFP: l=(long double)(u64)c; r=fromFP(l,w); break;
                        case Instruction::SIToFP: l=(long double)sx((u64)c,w2); r=fromFP(l,w); break;
                        case Instruction::FPToUI: r=(u128)(u64)toFP(c,w2) & mask128(w); break;
                        case Instruction::FPToSI: r=(u128)(u64)(i64)toFP(c,w2) & mask128(w); break;
                        default: r=fromFP(toFP(c,w2),w); break;
                    }
                    f.regs[di.dst]=wideConst(r,w); }
            }
            f.ip++; return; }
        case O_Alloca: { u64 n=concretize(s,rd(f,di.ops[0]),64); MemObj* o=newObj(s,di.imm*n,OK_Stack,true,"alloca",di.w2); f.regs[di.dst]=CV(o->base); f.allocas.push_back(o->base); f.ip++; return; }
        case O_Call: case O_Invoke: doCall(s,t,di); return;
        case O_Ret: {
            std::vector<Val> rv; for (auto& o : di.ops) rv.push_back(rd(f,o));
            freeStack(s,f);
            t.st.pop_back();
            if (t.st.empty()) { if (t.id==0) { pathEnd(s); throw Abort(); } threadDone(s,t); return; }
            finishCall(s,t,rv.data(),(unsigned)rv.size());
            return; }
        case O_Extract: { for (unsigned i=0;i<di.nslots;++i) f.regs[di.dst+i]=rd(f,di.ops[di.imm+i]); f.ip++; return; }
        case O_Insert: { unsigned n=di.nslots; std::vector<Val> v(n); for (unsigned i=0;i<n;++i) v[i]=rd(f,di.ops[i]); for (size_t i=n;i<di.ops.size();++i) v[di.imm+i-n]=rd(f,di.ops[i]); for (unsigned i=0;i<n;++i) f.regs[di.dst+i]=v[i]; f.ip++; return; }
        case O_Landing: f.regs[di.dst]=CV(t.excPtr); f.regs[di.dst+1]=CV(t.excSel); f.ip++; return;
        case O_Resume: { u64 obj=concretize(s,rd(f,di.ops[0]),64); u64 ti=loadN(s,obj-64,64,true).c; freeStack(s,f); t.st.pop_back(); unwindPhase2(s,t,obj,ti); return; }
        case O_Unreach: fail(s,"ub","unreachable code reached");
        case O_Freeze: { for (size_t i=0;i<di.leafW.size();++i) { Val v=rd(f,di.ops[i]); if (v.e && v.e->undef) { std::unordered_map<E,E> memo; } f.regs[di.dst+i]=v; } f.ip++; return; }
        case O_AtomicRMW: {
            u64 a=concretize(s,rd(f,di.ops[0]),64); if ((opt.atomicPreempt>1 || (di.w<=8 && (AtomicRMWInst::BinOp)di.sub==AtomicRMWInst::Xchg)) && atomicPoint(s,t,di.w)) return;
            Thread& t2=s.th[s.cur]; Frame& f2=t2.st.back(); unsigned w=di.w;
            Val old=loadN(s,a,w,true), v=rd(f2,di.ops[1]); E o=toE(old,w), x=toE(v,w), r;
            switch ((AtomicRMWInst::BinOp)di.sub) { case AtomicRMWInst::Xchg: r=x; break; case AtomicRMWInst::Add: r=X.bin(K::Add,o,x); break; case AtomicRMWInst::Sub: r=X.bin(K::Sub,o,x); break; case AtomicRMWInst::And: r=X.bin(K::And,o,x); break; case AtomicRMWInst::Or: r=X.bin(K::Or,o,x); break; case AtomicRMWInst::Xor: r=X.bin(K::Xor,o,x); break; default: unsupported(s,"atomicrmw kind"); }
            atomAcq(s,t2,a); storeN(s,a,mkVal(r),w,true); atomRel(s,t2,a); f2.regs[di.dst]=old; f2.ip++; return; }
        case O_CmpXchg: {
            u64 a=concretize(s,rd(f,di.ops[0]),64); if (atomicPoint(s,t,di.w2)) return;
            Thread& t2=s.th[s.cur]; Frame& f2=t2.st.back(); unsigned w=di.w2;
            Val old=loadN(s,a,w,true), ex=rd(f2,di.ops[1]); bool eq=decide(s,mkVal(X.bin(K::Eq,toE(old,w),toE(ex,w))));
            atomAcq(s,t2,a); if (eq) { storeN(s,a,rd(f2,di.ops[2]),w,true); atomRel(s,t2,a); } f2.regs[di.dst]=old; f2.regs[di.dst+1]=CV(eq); f2.ip++; return; }
        case O_Fence: f.ip++; return;
        case O_ExtractElt: { u64 i=concretize(s,rd(f,di.ops[1]),64); Val v=rd(f,di.ops[0]); unsigned w=di.w; u128 c; if (isConc(v,c)) f.regs[di.dst]=wideConst(c>>(i*w),w); else f.regs[di.dst]=mkVal(X.extract(v.e,(unsigned)i*w,w)); f.ip++; return; }
        case O_InsertElt: { u64 i=concretize(s,rd(f,di.ops[2]),64); unsigned w=di.w,tot=w*di.nelt; Val v=rd(f,di.ops[0]); E r=nullptr; for (unsigned k=0;k<di.nelt;++k) { E e = k==i ? toE(rd(f,di.ops[1]),w) : eltE(v,k,w,tot); r=r?X.concat(e,r):e; } f.regs[di.dst]=mkVal(r); f.ip++; return; }
        case O_Shuffle: { unsigned w=di.w, n=(unsigned)di.imm, tot=w*n; Val x=rd(f,di.ops[0]), y=rd(f,di.ops[1]); E r=nullptr; for (int m : di.mask) { E e = m<0?X.con(0,w): m<(int)n?eltE(x,m,w,tot):eltE(y,m-n,w,tot); r=r?X.concat(e,r):e; } f.regs[di.dst]=mkVal(r); f.ip++; return; }
        case O_FBin: case O_FNeg: case O_FCmp: {
            u128 a,b=0; unsigned w = di.op==O_FCmp?di.w2:di.w;
            if (di.nelt>1 || !isConc(rd(f,di.ops[0]),a) || (di.op!=O_FNeg && !isConc(rd(f,di.ops[1]),b))) { unsupported(s,"symbolic floating-point arithmetic"); }
            long double x=toFP(a,w), y=toFP(b,w), r=0;
            if (di.op==O_FNeg) { f.regs[di.dst]=wideConst(fromFP(-x,w),w); f.ip++; return; }
            if (di.op==O_FCmp) { bool un=std::isnan(x)||std::isnan(y), v=false; switch ((CmpInst::Predicate)di.sub) { case CmpInst::FCMP_OEQ: v=!un&&x==y; break; case CmpInst::FCMP_OGT: v=!un&&x>y; break; case CmpInst::FCMP_OGE: v=!un&&x>=y; break; case CmpInst::FCMP_OLT: v=!un&&x<y; break; case CmpInst::FCMP_OLE: v=!un&&x<=y; break; case CmpInst::FCMP_ONE: v=!un&&x!=y; break; case CmpInst::FCMP_ORD: v=!un; break; case CmpInst::FCMP_UNO: v=un; break; case CmpInst::FCMP_UEQ: v=un||x==y; break; case CmpInst::FCMP_UGT: v=un||x>y; break; case CmpInst::FCMP_UGE: v=un||x>=y; break; case CmpInst::FCMP_ULT: v=un||x<y; break; case CmpInst::FCMP_ULE: v=un||x<=y; break; case CmpInst::FCMP_UNE: v=un||x!=y; break; case CmpInst::FCMP_TRUE: v=true; break; default: break; } f.regs[di.dst]=CV(v); f.ip++; return; }
            switch (di.I->getOpcode()) { case Instruction::FAdd: r=x+y; break; case Instruction::FSub: r=x-y; break; case Instruction::FMul: r=x*y; break; case Instruction::FDiv: r=x/y; break; default: r=fmodl(x,y); }
            if (w==64) r=(double)r; if (w==32) r=(float)r;
            f.regs[di.dst]=wideConst(fromFP(r,w),w); f.ip++; return; }
        default: unsupported(s,"instruction "+di.uns+" "+(di.I?di.I->getOpcodeName():""));
    }
}

static u64 rssMB() { FILE* f=fopen("/proc/self/statm","r"); if (!f) return 0; unsigned long a,b; if (fscanf(f,"%lu %lu",&a,&b)!=2) b=0; fclose(f); return b*4096/1048576; }

static void runState(State* s) {
    try {
        for (;;) {
            if ((++s->steps & 0xfff)==0) {
                if (elapsed()>opt.maxTime) { inconcl("time limit"); stopAll=true; break; }
                if ((s->steps & 0xfffff)==0 && rssMB()>opt.maxMemMB) { inconcl("memory limit"); stopAll=true; break; }
            }
            if (s->steps>opt.maxSteps) { nSteps+=s->steps; reportError(*s,"hang","no termination within "+std::to_string(opt.maxSteps)+" steps",s->model); break; }
            step(*s);
        }
    } catch (Abort&) { }
    nSteps += s->steps;
}

static std::string js(const std::string& s) { std::string r="\""; for (unsigned char c : s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }

int main(int argc, char** argv) {
    for (int i=1;i<argc;++i) {
        std::string a=argv[i]; auto nx=[&]() { if (i+1>=argc) { fprintf(stderr,"missing value\n"); exit(3); } return std::string(argv[++i]); };
        if (a=="--entry") opt.entry=nx(); else if (a=="--out") opt.out=nx(); else if (a=="--max-time") opt.maxTime=atof(nx().c_str()); else if (a=="--max-paths") opt.maxPaths=strtoull(nx().c_str(),0,10);
        else if (a=="--max-steps") opt.maxSteps=strtoull(nx().c_str(),0,10); else if (a=="--preempt") opt.preempt=atoi(nx().c_str()); else if (a=="--spurious") opt.spurious=atoi(nx().c_str()); else if (a=="--race") opt.race=atoi(nx().c_str());
        else if (a=="--max-errors") opt.maxErrors=atoi(nx().c_str()); else if (a=="--samples") opt.samples=atoi(nx().c_str()); else if (a=="--dump") opt.dump=nx(); else if (a=="--dump-n") opt.dumpN=strtoull(nx().c_str(),0,10);
        else if (a=="-v") opt.verbose=true; else if (a=="--seed") opt.seed=strtoull(nx().c_str(),0,10); else if (a=="--atomic-preempt") opt.atomicPreempt=atoi(nx().c_str()); else if (a=="--max-mem") opt.maxMemMB=strtoull(nx().c_str(),0,10);
        else if (a[0]=='-') { fprintf(stderr,"unknown option %s\n",a.c_str()); return 3; } else opt.file=a;
    }
    T0=std::chrono::steady_clock::now();
    LLVMContext ctx; SMDiagnostic err;
    auto m=parseIRFile(opt.file,err,ctx);
    if (!m) { err.print("symx",errs()); return 3; }
    MOD=m.get(); DL=&MOD->getDataLayout();
    Solver solver; SV=&solver;
    if (!opt.dump.empty()) { solver.dump=fopen(opt.dump.c_str(),"w"); solver.dumpLeft=opt.dumpN; }
    initBuiltins();
    State* s=new State();
    layoutGlobals(*s);
    auto tv=[&](const char* n)->u64 { if (auto* G=MOD->getNamedValue(n)) return constAddr(G)+16; return 1; };
    tvSi=tv("_ZTVN10__cxxabiv120__si_class_type_infoE"); tvVmi=tv("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); tvPtr=tv("_ZTVN10__cxxabiv119__pointer_type_infoE");
    Function* E0=MOD->getFunction(opt.entry);
    if (!E0 || E0->isDeclaration()) { fprintf(stderr,"SYMX-FATAL no entry %s\n",opt.entry.c_str()); return 3; }
    // static constructors, run on the initial state
    std::vector<std::pair<u64,Function*>> ctors;
    if (auto* G=MOD->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto* CA=dyn_cast<ConstantArray>(G->getInitializer()))
        for (auto& o : CA->operands()) { auto* cs=cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(ctors.begin(),ctors.end(),[](auto& a, auto& b){return a.first<b.first;});
    s->th.resize(1); s->th[0].id=0; s->th[0].vc={1};
    // chain: entry frame at the bottom, constructors above it, executed last-pushed-first
    std::vector<Val> none;
    // a synthetic driver: run each ctor to completion
    bool ctorFail=false;
    for (auto& c : ctors) {
        if (!c.second) continue;
        pushFrame(*s,s->th[0],c.second,none,nullptr);
        try {
            while (!s->th[0].st.empty()) {
                ++s->steps;
                Thread& t=s->th[0]; Frame& f=t.st.back(); const DInst& di=f.f->blocks[f.bb].insts[f.ip];
                if (di.op==O_Ret && t.st.size()==1) { freeStack(*s,f); t.st.pop_back(); break; }
                step(*s);
            }
        } catch (Abort&) { fprintf(stderr,"SYMX-FATAL static initialisation failed\n"); for (auto& e : errors) fprintf(stderr,"  %s: %s at %s\n",e.kind.c_str(),e.msg.c_str(),e.where.c_str()); for (auto& e : inconclusive) fprintf(stderr,"  %s\n",e.first.c_str()); ctorFail=true; }
        if (ctorFail) return 3;
    }
    u64 initSteps=s->steps; s->steps=0;
    pushFrame(*s,s->th[0],E0,none,nullptr);
    work.push_back(s);
    double lastRep=0;
    while (!work.empty() && !stopAll) {
        State* c=work.back(); work.pop_back();
        runState(c);
        delete c;
        if (nPaths>=opt.maxPaths) { inconcl("path limit"); break; }
        if (opt.verbose && elapsed()-lastRep>5) { lastRep=elapsed(); fprintf(stderr,"[%.0fs] paths=%llu work=%zu steps=%llu z3=%llu (%.1fs) exprs=%u rss=%lluMB\n",lastRep,(unsigned long long)nPaths,work.size(),(unsigned long long)nSteps,(unsigned long long)solver.st.z3queries,solver.st.z3time,X.nextId,(unsigned long long)rssMB()); }
        if ((nPaths&0xff)==0 && rssMB()>opt.maxMemMB) { inconcl("memory limit"); break; }
    }
    u64 left=work.size();
    if (left && errors.empty() && inconclusive.empty()) inconcl("unexplored states");
    FILE* o=opt.out.empty()?stdout:fopen(opt.out.c_str(),"w");
    auto& st=solver.st;
    fprintf(o,"{\n\"paths\":%llu,\"steps\":%llu,\"init_steps\":%llu,\"forks\":%llu,\"max_path_steps\":%llu,\"unexplored\":%llu,\"assume_killed\":%llu,\"sched_points\":%llu,\"sched_forks\":%llu,\n\"time\":%.3f,\n",(unsigned long long)nPaths,(unsigned long long)nSteps,(unsigned long long)initSteps,(unsigned long long)nForks,(unsigned long long)maxStepsSeen,(unsigned long long)left,(unsigned long long)nAssumeKilled,(unsigned long long)nSchedPoints,(unsigned long long)nSchedForks,elapsed());
    fprintf(o,"\"solver\":{\"queries\":%llu,\"z3_queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"z3_time\":%.3f},\n",(unsigned long long)st.queries,(unsigned long long)st.z3queries,(unsigned long long)st.cacheHits,(unsigned long long)st.sat,(unsigned long long)st.unsat,(unsigned long long)st.unknown,st.z3time);
    fprintf(o,"\"asserts\":%llu,\"asserts_symbolic\":%llu,\"symbolic_branches\":%llu,\"undef_branches\":%llu,\n\"assert_counts\":{",(unsigned long long)nAsserts,(unsigned long long)nAssertsSym,(unsigned long long)nBranchSym,(unsigned long long)nUndefBranch);
    { bool f=true; for (auto& p : assertCount) { fprintf(o,"%s%s:%llu",f?"":",",js(p.first).c_str(),(unsigned long long)p.second); f=false; } }
    fprintf(o,"},\n\"reach\":{"); { bool f=true; for (auto& p : reachCount) { fprintf(o,"%s%s:%llu",f?"":",",js(p.first).c_str(),(unsigned long long)p.second); f=false; } }
    fprintf(o,"},\n\"inconclusive\":{"); { bool f=true; for (auto& p : inconclusive) { fprintf(o,"%s%s:%llu",f?"":",",js(p.first).c_str(),(unsigned long long)p.second); f=false; } }
    auto putIn=[&](const std::vector<std::pair<std::string,u64>>& in) { fprintf(o,"["); bool f=true; for (auto& p : in) { fprintf(o,"%s[%s,%llu]",f?"":",",js(p.first).c_str(),(unsigned long long)p.second); f=false; } fprintf(o,"]"); };
    auto putSch=[&](const std::vector<int>& v) { fprintf(o,"["); bool f=true; for (int x : v) { fprintf(o,"%s%d",f?"":",",x); f=false; } fprintf(o,"]"); };
    fprintf(o,"},\n\"errors\":["); { bool f=true; for (auto& e : errors) { fprintf(o,"%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"count\":%llu,\"sched\":",f?"":",\n",js(e.kind).c_str(),js(e.msg).c_str(),js(e.where).c_str(),(unsigned long long)errCount[e.key]); putSch(e.sched); fprintf(o,",\"inputs\":"); putIn(e.inputs); fprintf(o,"}"); f=false; } }
    fprintf(o,"],\n\"samples\":["); { bool f=true; for (auto& e : samples) { fprintf(o,"%s{\"idx\":%llu,\"obs\":%s,\"sched\":",f?"":",\n",(unsigned long long)e.idx,js(e.obs).c_str()); putSch(e.sched); fprintf(o,",\"inputs\":"); putIn(e.inputs); fprintf(o,"}"); f=false; } }
    fprintf(o,"],\n\"functions\":["); { bool f=true; for (auto& p : dfuncs) { if (!p.second->calls) continue; auto* sp=p.first->getSubprogram(); std::string file; if (sp && sp->getFile()) { file=sp->getFilename().str(); if (!file.empty() && file[0]!='/') file=sp->getDirectory().str()+"/"+file; } u64 vis=0; for (auto& b : p.second->blocks) vis+=b.visited; 
        fprintf(o,"%s[%s,%s,%llu,%llu,%zu]",f?"":",\n",js(demangle(p.first->getName().str())).c_str(),js(file).c_str(),(unsigned long long)p.second->calls,(unsigned long long)vis,p.second->blocks.size()); f=false; } }
    // source-level functions (including inlined ones) whose code was executed symbolically
    fprintf(o,"],\n\"src_functions\":["); { std::set<std::tuple<std::string,unsigned,std::string>> seen;
        for (auto& p : dfuncs) if (p.second->calls) for (auto& b : p.second->blocks) if (b.visited) for (auto& di : b.insts) if (di.I) for (DILocation* l=di.I->getDebugLoc().get(); l; l=l->getInlinedAt()) if (auto* sp=l->getScope()->getSubprogram()) { std::string file=sp->getFilename().str(); if (!file.empty() && file[0]!='/') file=sp->getDirectory().str()+"/"+file; seen.insert(std::make_tuple(file,sp->getLine(),sp->getName().str())); }
        bool f=true; for (auto& x : seen) { if (std::get<0>(x).find("/include/cli/")==std::string::npos) continue; fprintf(o,"%s[%s,%u,%s]",f?"":",\n",js(std::get<0>(x)).c_str(),std::get<1>(x),js(std::get<2>(x)).c_str()); f=false; } }
    fprintf(o,"]\n}\n");
    if (o!=stdout) fclose(o);
    if (solver.dump) fclose(solver.dump);
    fflush(stdout); _Exit(0);
}
