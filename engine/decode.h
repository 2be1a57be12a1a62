// LLVM IR -> decoded instruction form; global layout and initialisation.
#pragma once

static unsigned tyBits(Type* T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80;
    if (T->isFP128Ty()) return 128;
    if (T->isHalfTy()) return 16;
    if (auto* V = dyn_cast<FixedVectorType>(T)) return V->getNumElements()*tyBits(V->getElementType());
    return 0;
}
static void tyLeaves(Type* T, u64 off, std::vector<unsigned>& w, std::vector<u64>& o) {
    if (auto* S = dyn_cast<StructType>(T)) {
        auto* L = DL->getStructLayout(S);
        for (unsigned i=0;i<S->getNumElements();++i) tyLeaves(S->getElementType(i), off+L->getElementOffset(i), w, o);
        return;
    }
    if (auto* A = dyn_cast<ArrayType>(T)) {
        u64 es = DL->getTypeAllocSize(A->getElementType());
        for (u64 i=0;i<A->getNumElements();++i) tyLeaves(A->getElementType(), off+i*es, w, o);
        return;
    }
    if (T->isVoidTy()) return;
    w.push_back(tyBits(T)); o.push_back(off);
}
static unsigned nLeaves(Type* T) { std::vector<unsigned> w; std::vector<u64> o; tyLeaves(T,0,w,o); return (unsigned)w.size(); }

static Val wideConst(u128 v, unsigned w) { if (w<=64) return CV((u64)v & mask64(w)); return Val{X.con128(v & mask128(w), w), 0}; }
static u128 ap128(const APInt& a) { u128 r=a.getRawData()[0]; if (a.getNumWords()>1) r |= (u128)a.getRawData()[1] << 64; return r; }

static Val constScalar(const Constant* C);
static u64 constAddr(const GlobalValue* G) {
    if (auto* A = dyn_cast<GlobalAlias>(G)) return constScalar(A->getAliasee()).c;
    auto it = gaddr.find(G);
    if (it == gaddr.end()) { fprintf(stderr,"SYMX-FATAL no address for %s\n", G->getName().str().c_str()); exit(3); }
    return it->second;
}
static Val constScalar(const Constant* C) {
    Type* T = C->getType();
    unsigned w = tyBits(T);
    if (auto* I = dyn_cast<ConstantInt>(C)) return wideConst(ap128(I->getValue()), w);
    if (auto* F = dyn_cast<ConstantFP>(C)) return wideConst(ap128(F->getValueAPF().bitcastToAPInt()), w);
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return wideConst(0,w);
    if (auto* G = dyn_cast<GlobalValue>(C)) return CV(constAddr(G));
    if (auto* B = dyn_cast<BlockAddress>(C)) { (void)B; return CV(0); }
    if (auto* VT = dyn_cast<FixedVectorType>(T)) {
        unsigned n = VT->getNumElements(), ew = tyBits(VT->getElementType());
        u128 r = 0;
        for (unsigned i=0;i<n;++i) { Val v = constScalar(C->getAggregateElement(i)); u128 x = v.e ? 0 : v.c; if (v.e) ExprMgr::isWC(v.e,x); if (i*ew<128) r |= x << (i*ew); }
        return wideConst(r,w);
    }
    if (auto* D = dyn_cast<DSOLocalEquivalent>(C)) return CV(constAddr(D->getGlobalValue()));
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64,0);
                auto* G = cast<GEPOperator>(CE);
                if (!G->accumulateConstantOffset(*DL, off)) { fprintf(stderr,"SYMX-FATAL const gep\n"); exit(3); }
                return CV(constScalar(cast<Constant>(G->getPointerOperand())).c + off.getZExtValue());
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: {
                Val v = constScalar(CE->getOperand(0)); if (v.e) return v; return CV(v.c & mask64(w)); }
            case Instruction::Add: return CV((constScalar(CE->getOperand(0)).c + constScalar(CE->getOperand(1)).c) & mask64(w));
            case Instruction::Sub: return CV((constScalar(CE->getOperand(0)).c - constScalar(CE->getOperand(1)).c) & mask64(w));
            case Instruction::Xor: return CV((constScalar(CE->getOperand(0)).c ^ constScalar(CE->getOperand(1)).c) & mask64(w));
            case Instruction::ICmp: { u64 a=constScalar(CE->getOperand(0)).c, b=constScalar(CE->getOperand(1)).c;
                switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return CV(a==b); case CmpInst::ICMP_NE: return CV(a!=b); case CmpInst::ICMP_ULT: return CV(a<b); case CmpInst::ICMP_UGT: return CV(a>b); default: break; } break; }
            default: break;
        }
    }
    std::string str; raw_string_ostream os(str); C->print(os);
    fprintf(stderr,"SYMX-FATAL constant not supported: %s\n", os.str().c_str()); exit(3);
}
static void constVals(const Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (auto* S = dyn_cast<StructType>(T)) { for (unsigned i=0;i<S->getNumElements();++i) constVals(C->getAggregateElement(i), out); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { for (u64 i=0;i<A->getNumElements();++i) constVals(C->getAggregateElement((unsigned)i), out); return; }
    if (T->isVoidTy()) return;
    out.push_back(constScalar(C));
}
static void initBytes(const Constant* C, uint8_t* p) {
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { auto r = D->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i=0;i<S->getNumElements();++i) initBytes(C->getAggregateElement(i), p+L->getElementOffset(i)); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i=0;i<A->getNumElements();++i) initBytes(C->getAggregateElement((unsigned)i), p+i*es); return; }
    Val v = constScalar(C); u128 x=v.c; if (v.e) ExprMgr::isWC(v.e,x);
    memcpy(p,&x,(tyBits(T)+7)/8);
}
static std::unordered_map<u64, std::vector<uint8_t>> tlsInit; // initial contents of the thread-local variables
static void layoutGlobals(State& s) {
    u64 a = 0x400000; 
    for (auto& F : *MOD) {
        if (F.isDeclaration() && F.hasExternalWeakLinkage()) { gaddr[&F]=0; continue; }
        gaddr[&F]=a; addrFn[a]=&F; a+=16;
    }
    u64 g = 0x10000000;
    s.globals = std::make_shared<ObjVec>();
    std::vector<std::pair<GlobalVariable*,MemObj*>> todo;
    for (auto& G : MOD->globals()) {
        if (G.getName().starts_with("llvm.")) { gaddr[&G]=0; continue; }
        if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G]=0; continue; }
        Type* T = G.getValueType();
        u64 sz = T->isSized() ? (u64)DL->getTypeAllocSize(T) : 0;
        bool ext = G.isDeclaration();
        if (ext && sz<64) sz=64;
        u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
        g = (g+al-1)&~(al-1);
        MemObj* o = new MemObj(); ++liveObjs;
        o->base=g; o->size=(u32)sz; o->refs=1; o->kind = G.isConstant()||ext ? OK_Const : OK_Global; o->how=ext?9:0; o->b.assign(sz,0);
        o->name = strdup(G.getName().str().c_str());
        gaddr[&G]=g; g += sz + 32;
        s.globals->v.push_back(o);
        todo.push_back({&G,o});
    }
    for (auto& p : todo) if (p.first->hasInitializer()) initBytes(p.first->getInitializer(), p.second->b.data());
    for (auto& p : todo) if (p.first->isThreadLocal()) tlsInit[p.second->base]=p.second->b;
}

// ---------------------------------------------------------------- function decoding
typedef bool (*BFn)(State&, Thread&, const DInst&, std::vector<Val>&);
static std::unordered_map<std::string,BFn> builtins;

static DFunc* getDFunc(Function* F);
static DFunc* decodeFunc(Function* F) {
    DFunc* d = new DFunc(); d->F=F;
    std::unordered_map<const Value*,int> slot;
    std::unordered_map<const BasicBlock*,int> bid;
    int ns=0;
    for (auto& A : F->args()) { unsigned n=nLeaves(A.getType()); slot[&A]=ns; d->argSlots.push_back({ns,n}); ns+=n; }
    for (auto& B : *F) { int id=(int)bid.size(); bid[&B]=id; for (auto& I : B) { unsigned n=nLeaves(I.getType()); if (n) { slot[&I]=ns; ns+=n; } } }
    d->nslots=ns; d->blocks.resize(bid.size());
    auto opnds = [&](const Value* V, std::vector<Opnd>& out) {
        if (auto* C = dyn_cast<Constant>(V)) { std::vector<Val> vs; constVals(C,vs); for (auto& v : vs) out.push_back(Opnd{-1,v}); return; }
        if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return;
        auto it=slot.find(V); if (it==slot.end()) return;
        unsigned n=nLeaves(V->getType());
        for (unsigned i=0;i<n;++i) out.push_back(Opnd{it->second+(int)i,CV(0)});
    };
    for (auto& B : *F) {
        DBlock& db = d->blocks[bid[&B]];
        int pi=0;
        if (!B.empty() && isa<PHINode>(B.front())) {
            auto& P0 = cast<PHINode>(B.front());
            for (unsigned i=0;i<P0.getNumIncomingValues();++i) { int id=bid[P0.getIncomingBlock(i)]; if (!db.predIdx.count(id)) db.predIdx[id]=pi++; }
        }
        for (auto& I : B) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                PhiD ph; ph.dst=slot[P]; ph.n=nLeaves(P->getType()); ph.in.resize(pi);
                for (unsigned i=0;i<P->getNumIncomingValues();++i) { auto& v=ph.in[db.predIdx[bid[P->getIncomingBlock(i)]]]; if (v.empty()) opnds(P->getIncomingValue(i), v); }
                db.phis.push_back(ph); continue;
            }
            DInst x; x.I=&I; x.nslots=nLeaves(I.getType()); x.dst = x.nslots ? slot[&I] : -1; x.op=O_Unsupported;
            Type* T=I.getType(); x.w = x.nslots==1 ? tyBits(T) : 0; x.isPtr=T->isPointerTy();
            if (auto* VT=dyn_cast<FixedVectorType>(T)) { x.nelt=VT->getNumElements(); x.w=tyBits(VT->getElementType()); }
            switch (I.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                    static const std::map<unsigned,K> m={{Instruction::Add,K::Add},{Instruction::Sub,K::Sub},{Instruction::Mul,K::Mul},{Instruction::UDiv,K::UDiv},{Instruction::SDiv,K::SDiv},{Instruction::URem,K::URem},{Instruction::SRem,K::SRem},{Instruction::And,K::And},{Instruction::Or,K::Or},{Instruction::Xor,K::Xor},{Instruction::Shl,K::Shl},{Instruction::LShr,K::LShr},{Instruction::AShr,K::AShr}};
                    x.op=O_Bin; x.sub=(uint8_t)m.at(I.getOpcode()); opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); break; }
                case Instruction::ICmp: {
                    auto* C=cast<ICmpInst>(&I); x.op=O_ICmp; x.sub=(uint8_t)C->getPredicate(); Type* OT=I.getOperand(0)->getType();
                    if (auto* VT=dyn_cast<FixedVectorType>(OT)) { x.w2=tyBits(VT->getElementType()); } else x.w2=tyBits(OT);
                    opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); break; }
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.op=O_FBin; opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); break;
                case Instruction::FNeg: x.op=O_FNeg; opnds(I.getOperand(0),x.ops); break;
                case Instruction::FCmp: x.op=O_FCmp; x.sub=(uint8_t)cast<FCmpInst>(&I)->getPredicate(); x.w2=tyBits(I.getOperand(0)->getType()); opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); break;
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
                    x.op=O_Cast; x.imm=I.getOpcode(); Type* OT=I.getOperand(0)->getType(); if (auto* VT=dyn_cast<FixedVectorType>(OT)) x.w2=tyBits(VT->getElementType()); else x.w2=tyBits(OT); opnds(I.getOperand(0),x.ops); break; }
                case Instruction::Alloca: { auto* A=cast<AllocaInst>(&I); x.op=O_Alloca; x.imm=DL->getTypeAllocSize(A->getAllocatedType()); x.w2=(unsigned)A->getAlign().value(); opnds(A->getArraySize(),x.ops); break; }
                case Instruction::Load: { auto* L=cast<LoadInst>(&I); x.op=O_Load; x.atomic=L->isAtomic(); opnds(L->getPointerOperand(),x.ops); tyLeaves(T,0,x.leafW,x.leafOff); break; }
                case Instruction::Store: { auto* S=cast<StoreInst>(&I); x.op=O_Store; x.atomic=S->isAtomic(); opnds(S->getPointerOperand(),x.ops); opnds(S->getValueOperand(),x.ops); tyLeaves(S->getValueOperand()->getType(),0,x.leafW,x.leafOff); break; }
                case Instruction::GetElementPtr: {
                    auto* G=cast<GetElementPtrInst>(&I);
                    if (T->isVectorTy()) { x.uns="vector gep"; break; }
                    x.op=O_Gep; opnds(G->getPointerOperand(),x.ops);
                    for (auto it=gep_type_begin(G), e=gep_type_end(G); it!=e; ++it) {
                        Value* idx=it.getOperand();
                        if (StructType* ST=it.getStructTypeOrNull()) { x.imm += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                        u64 sc=DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* CI=dyn_cast<ConstantInt>(idx)) { x.imm += (u64)(CI->getSExtValue())*sc; continue; }
                        std::vector<Opnd> o; opnds(idx,o); x.gep.push_back({o[0],{sc,tyBits(idx->getType())}});
                    }
                    break; }
                case Instruction::Br: { auto* b=cast<BranchInst>(&I); if (b->isUnconditional()) { x.op=O_Br; x.t1=bid[b->getSuccessor(0)]; } else { x.op=O_CondBr; opnds(b->getCondition(),x.ops); x.t1=bid[b->getSuccessor(0)]; x.t2=bid[b->getSuccessor(1)]; } break; }
                case Instruction::Switch: { auto* S=cast<SwitchInst>(&I); x.op=O_Switch; x.w2=tyBits(S->getCondition()->getType()); opnds(S->getCondition(),x.ops); x.t1=bid[S->getDefaultDest()]; for (auto& c : S->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(),bid[c.getCaseSuccessor()]}); break; }
                case Instruction::Ret: x.op=O_Ret; if (I.getNumOperands()) opnds(I.getOperand(0),x.ops); break;
                case Instruction::Select: x.op=O_Select; opnds(I.getOperand(0),x.ops); x.w2=tyBits(I.getOperand(0)->getType()); opnds(I.getOperand(1),x.ops); opnds(I.getOperand(2),x.ops); { std::vector<u64> o; tyLeaves(T,0,x.leafW,o); } break;
                case Instruction::ExtractValue: { auto* E2=cast<ExtractValueInst>(&I); x.op=O_Extract; opnds(E2->getAggregateOperand(),x.ops);
                    Type* C=E2->getAggregateOperand()->getType(); u64 k=0; for (unsigned ix : E2->indices()) { if (auto* S=dyn_cast<StructType>(C)) { for (unsigned j=0;j<ix;++j) k+=nLeaves(S->getElementType(j)); C=S->getElementType(ix); } else { auto* A=cast<ArrayType>(C); k+=ix*nLeaves(A->getElementType()); C=A->getElementType(); } }
                    x.imm=k; break; }
                case Instruction::InsertValue: { auto* E2=cast<InsertValueInst>(&I); x.op=O_Insert; opnds(E2->getAggregateOperand(),x.ops); 
                    Type* C=T; u64 k=0; for (unsigned ix : E2->indices()) { if (auto* S=dyn_cast<StructType>(C)) { for (unsigned j=0;j<ix;++j) k+=nLeaves(S->getElementType(j)); C=S->getElementType(ix); } else { auto* A=cast<ArrayType>(C); k+=ix*nLeaves(A->getElementType()); C=A->getElementType(); } }
                    x.imm=k; opnds(E2->getInsertedValueOperand(),x.ops); break; }
                case Instruction::LandingPad: x.op=O_Landing; break;
                case Instruction::Resume: x.op=O_Resume; opnds(I.getOperand(0),x.ops); break;
                case Instruction::Unreachable: x.op=O_Unreach; break;
                case Instruction::Freeze: x.op=O_Freeze; opnds(I.getOperand(0),x.ops); { std::vector<u64> o; tyLeaves(T,0,x.leafW,o); } break;
                case Instruction::AtomicRMW: { auto* A=cast<AtomicRMWInst>(&I); x.op=O_AtomicRMW; x.sub=(uint8_t)A->getOperation(); opnds(A->getPointerOperand(),x.ops); opnds(A->getValOperand(),x.ops); break; }
                case Instruction::AtomicCmpXchg: { auto* A=cast<AtomicCmpXchgInst>(&I); x.op=O_CmpXchg; x.w2=tyBits(A->getCompareOperand()->getType()); opnds(A->getPointerOperand(),x.ops); opnds(A->getCompareOperand(),x.ops); opnds(A->getNewValOperand(),x.ops); break; }
                case Instruction::Fence: x.op=O_Fence; break;
                case Instruction::ExtractElement: x.op=O_ExtractElt; opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); break;
                case Instruction::InsertElement: x.op=O_InsertElt; opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); opnds(I.getOperand(2),x.ops); break;
                case Instruction::ShuffleVector: { auto* S=cast<ShuffleVectorInst>(&I); x.op=O_Shuffle; opnds(I.getOperand(0),x.ops); opnds(I.getOperand(1),x.ops); x.imm=cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); for (int m : S->getShuffleMask()) x.mask.push_back(m); break; }
                case Instruction::Call: case Instruction::Invoke: {
                    auto* C=cast<CallBase>(&I);
                    x.op = isa<InvokeInst>(&I) ? O_Invoke : O_Call;
                    if (auto* inv=dyn_cast<InvokeInst>(&I)) { x.t1=bid[inv->getNormalDest()]; x.t2=bid[inv->getUnwindDest()]; }
                    { std::vector<u64> o; tyLeaves(T,0,x.leafW,o); }
                    for (unsigned i=0;i<C->arg_size();++i) { Value* A=C->getArgOperand(i); int first=(int)x.ops.size(); opnds(A,x.ops); x.argLayout.push_back({first,(unsigned)(x.ops.size()-first)}); x.byval.push_back(C->isByValArgument(i) ? (u64)DL->getTypeAllocSize(C->getParamByValType(i)) : 0); x.argW.push_back(tyBits(A->getType())); }
                    if (C->isInlineAsm()) { x.uns="inline asm"; auto* ia=cast<InlineAsm>(C->getCalledOperand()); if (ia->getAsmString().empty() || ia->getAsmString().find("nop")==0 || ia->getAsmString().find("pause")==0) x.intr=-2; else x.op=O_Unsupported; break; }
                    Value* cv=C->getCalledOperand()->stripPointerCasts();
                    if (auto* ga=dyn_cast<GlobalAlias>(cv)) cv=const_cast<GlobalObject*>(ga->getAliaseeObject());
                    if (auto* cf=dyn_cast<Function>(cv)) {
                        x.callee=cf;
                        if (cf->isIntrinsic()) x.intr=(int)cf->getIntrinsicID();
                    } else { x.imm=x.ops.size(); opnds(C->getCalledOperand(),x.ops); }
                    break; }
                default: x.uns=I.getOpcodeName(); break;
            }
            db.insts.push_back(std::move(x));
        }
    }
    return d;
}
static DFunc* getDFunc(Function* F) {
    auto it=dfuncs.find(F);
    if (it!=dfuncs.end()) return it->second;
    DFunc* d=decodeFunc(F);
    dfuncs[F]=d; return d;
}
