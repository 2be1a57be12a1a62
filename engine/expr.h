// Hash-consed bit-vector expressions (width 1..128) with simplification, and a
// Z3-backed solver with independence slicing and a query cache.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <chrono>
#include <deque>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef uint32_t u32;

enum class K : uint8_t { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
                         Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat };

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
    K k; uint16_t w; uint32_t id;
    u64 c;                    // Const value / Var id / Extract low bit
    const Expr *a, *b, *d;
    const VarSet* vs;
    bool undef;               // mentions an uninitialised-memory variable
    bool hasDiv;              // contains a division by a constant
    mutable uint32_t epoch, depoch; mutable u128 val;
    mutable Z3_ast zbv, zbool;
    mutable const Expr* low;  // signed division in terms of the unsigned one
};
typedef const Expr* E;

static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool undef; };

class ExprMgr {
public:
    std::vector<VarInfo> vars;
    VarSet emptySet;
    uint32_t nextId = 0;
    size_t count = 0;
    struct Key { K k; uint16_t w; u64 c; E a, b, d; bool operator==(const Key& o) const { return k==o.k&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
    struct KH { size_t operator()(const Key& x) const { u64 h = (u64)x.k*0x9E3779B97F4A7C15ull ^ ((u64)x.w<<8); h = (h ^ x.c) * 0xff51afd7ed558ccdull; h ^= h>>31; h = (h ^ (u64)x.a) * 0xc4ceb9fe1a85ec53ull; h ^= h>>29; h = (h ^ (u64)x.b) * 0xff51afd7ed558ccdull; h ^= h>>32; h = (h ^ (u64)x.d)*0x9E3779B97F4A7C15ull; return h ^ (h>>30); } };
    std::unordered_map<Key, E, KH> tab;
    struct VH { size_t operator()(const std::vector<uint32_t>& v) const { u64 h=v.size(); for (auto x: v) h=(h^x)*0x100000001b3ull; return h; } };
    std::unordered_map<std::vector<uint32_t>, const VarSet*, VH> sets;
    std::deque<Expr> arena;

    const VarSet* intern(std::vector<uint32_t>& v) {
        if (v.empty()) return &emptySet;
        auto it = sets.find(v);
        if (it != sets.end()) return it->second;
        auto* s = new VarSet{v};
        sets.emplace(v, s);
        return s;
    }
    const VarSet* unite(const VarSet* x, const VarSet* y) {
        if (x == y || y->v.empty()) return x;
        if (x->v.empty()) return y;
        std::vector<uint32_t> r; r.reserve(x->v.size()+y->v.size());
        std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
        return intern(r);
    }
    E raw(K k, unsigned w, u64 c, E a=nullptr, E b=nullptr, E d=nullptr) {
        Key key{k,(uint16_t)w,c,a,b,d};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        arena.emplace_back();
        Expr& e = arena.back();
        e.k=k; e.w=(uint16_t)w; e.c=c; e.a=a; e.b=b; e.d=d; e.id=nextId++; e.epoch=0; e.val=0; e.zbv=nullptr; e.zbool=nullptr; e.undef=false; e.low=nullptr; e.depoch=0;
        e.hasDiv = (k==K::UDiv||k==K::SDiv||k==K::URem||k==K::SRem) && b && b->k==K::Const && b->c;
        for (E x : {a,b,d}) if (x) e.hasDiv |= x->hasDiv;
        const VarSet* s = &emptySet;
        if (k == K::Var) { std::vector<uint32_t> v{(uint32_t)c}; s = intern(v); e.undef = vars[c].undef; }
        if (a) { s = unite(s, a->vs); e.undef |= a->undef; }
        if (b) { s = unite(s, b->vs); e.undef |= b->undef; }
        if (d) { s = unite(s, d->vs); e.undef |= d->undef; }
        e.vs = s;
        tab.emplace(key, &e);
        return &e;
    }
    E var(const std::string& name, unsigned w, bool undef=false) { vars.push_back({name,w,undef}); return raw(K::Var, w, vars.size()-1); }
    std::unordered_map<std::string,E> named; // an input keeps its variable on every path (names are unique within a path): queries are shared among paths
    E namedVar(const std::string& name, unsigned w, bool undef=false) { std::string k=name+(undef?"?":":")+std::to_string(w); auto it=named.find(k); if (it!=named.end()) return it->second; E e=var(name,w,undef); named[k]=e; return e; }
    E con(u64 v, unsigned w) {
        if (w > 64) return raw(K::Concat, w, 0, con(0, w-64), con(v, 64));
        return raw(K::Const, w, v & mask64(w));
    }
    E con128(u128 v, unsigned w) {
        if (w <= 64) return con((u64)v, w);
        return raw(K::Concat, w, 0, con((u64)(v>>64), w-64), con((u64)v, 64));
    }
    static bool isC(E e) { return e->k == K::Const; }
    static bool isC(E e, u64 v) { return e->k == K::Const && e->c == v; }
    // is a (possibly wide) constant
    static bool isWC(E e, u128& out) {
        if (e->k == K::Const) { out = e->c; return true; }
        if (e->k == K::Concat) { u128 h,l; if (isWC(e->a,h) && isWC(e->b,l)) { out = (h << e->b->w) | l; return true; } }
        return false;
    }
    static u128 evalBin(K k, u128 x, u128 y, unsigned w) {
        u128 m = mask128(w);
        auto s = [&](u128 v) -> __int128 { if (w>=128) return (__int128)v; u128 t = (u128)1 << (w-1); return (__int128)((v ^ t) - t); };
        switch (k) {
            case K::Add: return (x+y)&m; case K::Sub: return (x-y)&m; case K::Mul: return (x*y)&m;
            case K::UDiv: return y ? x/y : m; case K::URem: return y ? x%y : x;
            case K::SDiv: if (!y) return s(x)<0 ? 1 : m; if (s(y)==-1) return (-x)&m; return ((u128)(s(x)/s(y)))&m;
            case K::SRem: if (!y) return x; if (s(y)==-1) return 0; return ((u128)(s(x)%s(y)))&m;
            case K::And: return x&y; case K::Or: return x|y; case K::Xor: return x^y;
            case K::Shl: return y>=w ? 0 : (x<<y)&m;
            case K::LShr: return y>=w ? 0 : x>>y;
            case K::AShr: { if (y>=w) return s(x)<0 ? m : 0; return ((u128)(s(x)>>(int)y))&m; }
            case K::Eq: return x==y; case K::Ult: return x<y; case K::Ule: return x<=y;
            case K::Slt: return s(x)<s(y); case K::Sle: return s(x)<=s(y);
            default: abort();
        }
    }
    static bool isCmp(K k) { return k>=K::Eq && k<=K::Sle; }
    E notE(E x) {
        if (isC(x)) return con(!x->c,1);
        if (x->k==K::Xor && isC(x->b,1)) return x->a;
        if (x->k==K::Ult) return raw(K::Ule,1,0,x->b,x->a);
        if (x->k==K::Ule) return raw(K::Ult,1,0,x->b,x->a);
        if (x->k==K::Slt) return raw(K::Sle,1,0,x->b,x->a);
        if (x->k==K::Sle) return raw(K::Slt,1,0,x->b,x->a);
        return raw(K::Xor,1,0,x,con(1,1));
    }
    E andB(E x, E y) { return bin(K::And,x,y); }
    E orB(E x, E y) { return bin(K::Or,x,y); }
    E bin(K k, E x, E y) {
        unsigned w = x->w;
        if (x->w != y->w) { fprintf(stderr,"width mismatch %d %d k=%d\n", x->w, y->w,(int)k); abort(); }
        u128 cx, cy;
        bool ix = isWC(x,cx), iy = isWC(y,cy);
        if (ix && iy) return con128(evalBin(k,cx,cy,w), isCmp(k)?1:w);
        // canonical: constant on the right for commutative ops
        if (ix && (k==K::Add||k==K::Mul||k==K::And||k==K::Or||k==K::Xor||k==K::Eq)) { std::swap(x,y); std::swap(cx,cy); std::swap(ix,iy); }
        else if (!ix && !iy && (k==K::Add||k==K::Mul||k==K::And||k==K::Or||k==K::Xor||k==K::Eq) && x->id > y->id) std::swap(x,y);
        u128 m = mask128(w);
        switch (k) {
            case K::Add:
                if (iy && cy==0) return x;
                if (iy && x->k==K::Add) { u128 c2; if (isWC(x->b,c2)) return bin(K::Add,x->a,con128((cy+c2)&m,w)); }
                break;
            case K::Sub:
                if (x==y) return con(0,w);
                if (iy) return bin(K::Add,x,con128((-cy)&m,w));
                // (a + c1) - (a + c2), (a+c)-a
                { u128 c1=0,c2=0; E xa=x, ya=y; if (x->k==K::Add && isWC(x->b,c1)) xa=x->a; else c1=0; if (y->k==K::Add && isWC(y->b,c2)) ya=y->a; else c2=0; if (xa==ya) return con128((c1-c2)&m,w); }
                break;
            case K::Mul:
                if (iy && cy==0) return con(0,w);
                if (iy && cy==1) return x;
                break;
            case K::And:
                if (x==y) return x;
                if (iy && cy==0) return con(0,w);
                if (iy && cy==m) return x;
                if (iy && x->k==K::ZExt && (cy & mask128(x->a->w)) == mask128(x->a->w)) return x;
                if (iy && x->k==K::ZExt) { u128 low = cy & mask128(x->a->w); return zext(bin(K::And,x->a,con128(low,x->a->w)),w); }
                if (w==1) { if (x->k==K::Xor && isC(x->b,1) && x->a==y) return con(0,1); if (y->k==K::Xor && isC(y->b,1) && y->a==x) return con(0,1); }
                break;
            case K::Or:
                if (x==y) return x;
                if (iy && cy==0) return x;
                if (iy && cy==m) return con128(m,w);
                if (w==1) { if (x->k==K::Xor && isC(x->b,1) && x->a==y) return con(1,1); if (y->k==K::Xor && isC(y->b,1) && y->a==x) return con(1,1); }
                break;
            case K::Xor:
                if (x==y) return con(0,w);
                if (iy && cy==0) return x;
                if (w==1 && iy && cy==1) return notE(x);
                if (iy && x->k==K::Xor) { u128 c2; if (isWC(x->b,c2)) return bin(K::Xor,x->a,con128(cy^c2,w)); }
                break;
            case K::Shl:
                if (iy) { if (cy==0) return x; if (cy>=w) return con(0,w);
                    unsigned s=(unsigned)cy; return concat(extract(x,0,w-s), con(0,s)); }
                break;
            case K::LShr:
                if (iy) { if (cy==0) return x; if (cy>=w) return con(0,w);
                    unsigned s=(unsigned)cy; return zext(extract(x,s,w-s), w); }
                break;
            case K::AShr:
                if (iy) { if (cy==0) return x; if (cy>=w) cy=w-1; unsigned s=(unsigned)cy; return sext(extract(x,s,w-s), w); }
                break;
            case K::UDiv: if (iy && cy==1) return x; break;
            case K::Eq: return mkEq(x,y,iy,cy);
            case K::Ult:
                if (x==y) return con(0,1);
                if (iy && cy==0) return con(0,1);
                if (ix && cx==m) return con(0,1);
                if (iy && cy==1) return mkEqC(x,0);
                if (w==1) { return andB(notE(x),y); }
                if (iy && x->k==K::ZExt) { unsigned iw=x->a->w; if (cy > mask128(iw)) return con(1,1); return bin(K::Ult,x->a,con128(cy,iw)); }
                if (ix && y->k==K::ZExt) { unsigned iw=y->a->w; if (cx >= mask128(iw)) return con(0,1); return bin(K::Ult,con128(cx,iw),y->a); }
                if (x->k==K::ZExt && y->k==K::ZExt && x->a->w==y->a->w) return bin(K::Ult,x->a,y->a);
                return raw(k,1,0,x,y);
            case K::Ule:
                if (x==y) return con(1,1);
                return notE(bin(K::Ult,y,x));
            case K::Slt:
                if (x==y) return con(0,1);
                if (iy && x->k==K::ZExt) { u128 sb=(u128)1<<(w-1); if (cy & sb) return con(0,1); return bin(K::Ult,x,y); }
                if (ix && y->k==K::ZExt) { u128 sb=(u128)1<<(w-1); if (cx & sb) return con(1,1); return bin(K::Ult,x,y); }
                if (x->k==K::ZExt && y->k==K::ZExt) return bin(K::Ult,x,y);
                if (iy && x->k==K::SExt) { unsigned iw=x->a->w; __int128 sv = sgn(cy,w); __int128 lo=-((__int128)1<<(iw-1)), hi=((__int128)1<<(iw-1))-1;
                    if (sv>hi) return con(1,1); if (sv<=lo) return con(0,1); return bin(K::Slt,x->a,con128((u128)sv & mask128(iw),iw)); }
                if (ix && y->k==K::SExt) { unsigned iw=y->a->w; __int128 sv = sgn(cx,w); __int128 lo=-((__int128)1<<(iw-1)), hi=((__int128)1<<(iw-1))-1;
                    if (sv>=hi) return con(0,1); if (sv<lo) return con(1,1); return bin(K::Slt,con128((u128)sv & mask128(iw),iw),y->a); }
                if (x->k==K::SExt && y->k==K::SExt && x->a->w==y->a->w) return bin(K::Slt,x->a,y->a);
                return raw(k,1,0,x,y);
            case K::Sle:
                if (x==y) return con(1,1);
                return notE(bin(K::Slt,y,x));
            default: break;
        }
        return raw(k,w,0,x,y);
    }
    static __int128 sgn(u128 v, unsigned w) { if (w>=128) return (__int128)v; u128 t=(u128)1<<(w-1); return (__int128)((v^t)-t); }
    E mkEqC(E x, u128 c) { return bin(K::Eq, x, con128(c, x->w)); }
    E mkEq(E x, E y, bool iy, u128 cy) {
        unsigned w=x->w;
        if (x==y) return con(1,1);
        if (iy) {
            if (w==1) return cy ? x : notE(x);
            switch (x->k) {
                case K::ZExt: if (cy > mask128(x->a->w)) return con(0,1); return mkEqC(x->a,cy);
                case K::SExt: { unsigned iw=x->a->w; u128 low=cy & mask128(iw); __int128 s=sgn(low,iw); if (((u128)s & mask128(w)) != cy) return con(0,1); return mkEqC(x->a,low); }
                case K::Concat: { unsigned lw=x->b->w; return andB(mkEqC(x->a, cy>>lw), mkEqC(x->b, cy & mask128(lw))); }
                case K::Add: { u128 c2; if (isWC(x->b,c2)) return mkEqC(x->a,(cy-c2)&mask128(w)); break; }
                case K::Xor: { u128 c2; if (isWC(x->b,c2)) return mkEqC(x->a,cy^c2); break; }
                case K::Ite: { u128 t,f; bool it=isWC(x->b,t), jf=isWC(x->d,f);
                    if (it && jf) { if (t==cy && f==cy) return con(1,1); if (t==cy) return x->a; if (f==cy) return notE(x->a); return con(0,1); }
                    if (it) { if (t==cy) return orB(x->a, mkEqC(x->d,cy)); return andB(notE(x->a), mkEqC(x->d,cy)); }
                    if (jf) { if (f==cy) return orB(notE(x->a), mkEqC(x->b,cy)); return andB(x->a, mkEqC(x->b,cy)); }
                    break; }
                case K::And: // (zext-like) single-bit tests left alone
                    break;
                default: break;
            }
        } else {
            if (x->k==K::ZExt && y->k==K::ZExt && x->a->w==y->a->w) return bin(K::Eq,x->a,y->a);
            if (x->k==K::SExt && y->k==K::SExt && x->a->w==y->a->w) return bin(K::Eq,x->a,y->a);
            if (x->k==K::Concat && y->k==K::Concat && x->b->w==y->b->w) return andB(bin(K::Eq,x->a,y->a), bin(K::Eq,x->b,y->b));
            if (w==1) { return notE(bin(K::Xor,x,y)); }
        }
        return raw(K::Eq,1,0,x,y);
    }
    E ite(E c, E t, E f) {
        if (isC(c)) return c->c ? t : f;
        if (t==f) return t;
        if (t->w==1) {
            if (isC(t,1) && isC(f,0)) return c;
            if (isC(t,0) && isC(f,1)) return notE(c);
            if (isC(t,1)) return orB(c,f);
            if (isC(t,0)) return andB(notE(c),f);
            if (isC(f,1)) return orB(notE(c),t);
            if (isC(f,0)) return andB(c,t);
        }
        if (c->k==K::Xor && isC(c->b,1)) return ite(c->a,f,t);
        u128 ct, cf;
        if (t->w>1 && isWC(t,ct) && isWC(f,cf)) { if (ct==1 && cf==0) return zext(c,t->w); if (ct==0 && cf==1) return zext(notE(c),t->w); if (ct==mask128(t->w) && cf==0) return sext(c,t->w); }
        return raw(K::Ite,t->w,0,c,t,f);
    }
    E zext(E x, unsigned w) {
        if (x->w==w) return x;
        u128 c; if (isWC(x,c)) return con128(c,w);
        if (x->k==K::ZExt) return zext(x->a,w);
        return raw(K::ZExt,w,0,x);
    }
    E sext(E x, unsigned w) {
        if (x->w==w) return x;
        u128 c; if (isWC(x,c)) return con128((u128)sgn(c,x->w) & mask128(w), w);
        if (x->k==K::SExt) return sext(x->a,w);
        if (x->k==K::ZExt) return zext(x->a,w);
        return raw(K::SExt,w,0,x);
    }
    E extract(E x, unsigned lo, unsigned w) {
        if (lo==0 && w==x->w) return x;
        u128 c; if (isWC(x,c)) return con128((c>>lo)&mask128(w),w);
        switch (x->k) {
            case K::Extract: return extract(x->a,(unsigned)x->c+lo,w);
            case K::ZExt: { unsigned iw=x->a->w; if (lo>=iw) return con(0,w); if (lo+w<=iw) return extract(x->a,lo,w); return zext(extract(x->a,lo,iw-lo),w); }
            case K::SExt: { unsigned iw=x->a->w; if (lo+w<=iw) return extract(x->a,lo,w); if (lo<iw) return sext(extract(x->a,lo,iw-lo),w); return sext(extract(x->a,iw-1,1),w); }
            case K::Concat: { unsigned lw=x->b->w; if (lo>=lw) return extract(x->a,lo-lw,w); if (lo+w<=lw) return extract(x->b,lo,w);
                return concat(extract(x->a,0,lo+w-lw), extract(x->b,lo,lw-lo)); }
            case K::And: case K::Or: case K::Xor: return bin(x->k, extract(x->a,lo,w), extract(x->b,lo,w));
            case K::Add: case K::Sub: case K::Mul: if (lo==0) return bin(x->k, extract(x->a,0,w), extract(x->b,0,w)); break;
            case K::Ite: return ite(x->a, extract(x->b,lo,w), extract(x->d,lo,w));
            default: break;
        }
        return raw(K::Extract,w,lo,x);
    }
    E concat(E h, E l) {
        u128 ch, cl;
        unsigned w=h->w+l->w;
        if (isWC(h,ch) && isWC(l,cl)) return con128((ch<<l->w)|cl, w);
        if (isWC(h,ch) && ch==0) return zext(l,w);
        if (h->k==K::Extract && l->k==K::Extract && h->a==l->a && h->c==l->c+l->w) return extract(h->a,(unsigned)l->c,w);
        if (l->k==K::Concat) { // re-associate to allow merging
            E hh = h, m = l->a; if (hh->k==K::Extract && m->k==K::Extract && hh->a==m->a && hh->c==m->c+m->w) return concat(extract(hh->a,(unsigned)m->c,hh->w+m->w), l->b); }
        if (h->k==K::ZExt && l->k==K::Extract && h->a->k==K::Extract && h->a->a==l->a && h->a->c==l->c+l->w) return zext(extract(l->a,(unsigned)l->c,h->a->w+l->w),w);
        // sign-extension split: extract of sext
        return raw(K::Concat,w,0,h,l);
    }

    uint32_t curEpoch = 0;
    u128 evalRec(E e, const std::vector<u64>& m) {
        if (e->k==K::Const) return e->c;
        if (e->epoch==curEpoch) return e->val;
        u128 r;
        switch (e->k) {
            case K::Var: r = e->c < m.size() ? m[e->c] : 0; break;
            case K::Ite: r = evalRec(e->a,m) ? evalRec(e->b,m) : evalRec(e->d,m); break;
            case K::ZExt: r = evalRec(e->a,m); break;
            case K::SExt: r = (u128)sgn(evalRec(e->a,m), e->a->w) & mask128(e->w); break;
            case K::Extract: r = (evalRec(e->a,m) >> e->c) & mask128(e->w); break;
            case K::Concat: { u128 h = evalRec(e->a,m), l = evalRec(e->b,m); r = (h << e->b->w) | l; break; }
            default: { u128 x=evalRec(e->a,m), y=evalRec(e->b,m); r = evalBin(e->k,x,y,e->a->w); }
        }
        e->epoch=curEpoch; e->val=r;
        return r;
    }
    u128 eval(E e, const std::vector<u64>& m) { ++curEpoch; return evalRec(e,m); }
};

extern ExprMgr X;

struct SolverStats { u64 queries=0, z3queries=0, cacheHits=0, sat=0, unsat=0, unknown=0, assertQueries=0; double z3time=0; };

class Solver {
public:
    Z3_context ctx; Z3_solver slv, slv2; // slv: fast incremental; slv2: bit-blasting, for what slv does not decide quickly
    SolverStats st;
    FILE* dump=nullptr; u64 dumpLeft=0;
    struct Res { int r; std::vector<std::pair<uint32_t,u64>> model; };
    struct VH { size_t operator()(const std::vector<uint32_t>& v) const { u64 h=v.size(); for (auto x: v) { h=(h^x)*0x9E3779B97F4A7C15ull; h^=h>>29; } return h; } };
    std::unordered_map<std::vector<uint32_t>, Res, VH> cache;
    std::vector<Z3_ast> varAst;
    unsigned timeoutMs = 60000; bool slowLog=getenv("SYMX_SLOW")!=nullptr; double slowT=slowLog?atof(getenv("SYMX_SLOW")):0;
    Solver() {
        Z3_config c = Z3_mk_config();
        ctx = Z3_mk_context(c);
        Z3_del_config(c);
        slv = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, slv);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p);
        Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),150);
        Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"random_seed"),1);
        Z3_solver_set_params(ctx,slv,p); Z3_params_dec_ref(ctx,p);
        Z3_tactic t=Z3_mk_tactic(ctx,"qfbv"); Z3_tactic_inc_ref(ctx,t);
        slv2=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,slv2);
        p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p);
        Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs);
        Z3_solver_set_params(ctx,slv2,p); Z3_params_dec_ref(ctx,p);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e){ fprintf(stderr,"SYMX-FATAL z3 error: %s\n", Z3_get_error_msg(c,e)); exit(3); });
    }
    Z3_ast zc(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx,w)); }
    Z3_ast B(E e) { // as Bool
        if (e->zbool) return e->zbool;
        Z3_ast r;
        switch (e->k) {
            case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
            case K::Eq: r = Z3_mk_eq(ctx, V(e->a), V(e->b)); break;
            case K::Ult: r = Z3_mk_bvult(ctx, V(e->a), V(e->b)); break;
            case K::Ule: r = Z3_mk_bvule(ctx, V(e->a), V(e->b)); break;
            case K::Slt: r = Z3_mk_bvslt(ctx, V(e->a), V(e->b)); break;
            case K::Sle: r = Z3_mk_bvsle(ctx, V(e->a), V(e->b)); break;
            case K::And: { Z3_ast a[2]={B(e->a),B(e->b)}; r = Z3_mk_and(ctx,2,a); break; }
            case K::Or: { Z3_ast a[2]={B(e->a),B(e->b)}; r = Z3_mk_or(ctx,2,a); break; }
            case K::Xor: r = Z3_mk_xor(ctx,B(e->a),B(e->b)); break;
            case K::Ite: r = Z3_mk_ite(ctx,B(e->a),B(e->b),B(e->d)); break;
            default: r = Z3_mk_eq(ctx, V(e), zc(1,1)); break;
        }
        Z3_inc_ref(ctx,r); e->zbool=r; return r;
    }
    // Division by a constant: fresh quotient and remainder tied by x == q*c + r, r < c (in a width where nothing overflows)
    struct Div { Z3_ast q, r, def; };
    std::map<std::pair<uint32_t,u64>,Div> divs; uint32_t dep=0;
    static bool constDiv(E e) { return (e->k==K::UDiv||e->k==K::URem||((e->k==K::SDiv||e->k==K::SRem) && sx(e->b->c,e->w)>0)) && e->b->k==K::Const && e->b->c && e->w<=64; }
    static E lowered(E e) { if (!e->low) { E neg=X.bin(K::Slt,e->a,X.con(0,e->w)), m=X.ite(neg,X.bin(K::Sub,X.con(0,e->w),e->a),e->a), r=X.raw(e->k==K::SDiv?K::UDiv:K::URem,e->w,0,m,e->b); e->low=X.ite(neg,X.bin(K::Sub,X.con(0,e->w),r),r); } return e->low; }
    Div& divOf(E x, u64 c) {
        auto it=divs.find({x->id,c}); if (it!=divs.end()) return it->second;
        unsigned w=x->w, k=1; while (k<64 && (c>>k)) ++k;
        char nm[48]; snprintf(nm,48,"q%u_%llu",x->id,(unsigned long long)c); Div d; d.q=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm),Z3_mk_bv_sort(ctx,w)); Z3_inc_ref(ctx,d.q);
        nm[0]='r'; d.r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm),Z3_mk_bv_sort(ctx,w)); Z3_inc_ref(ctx,d.r);
        Z3_ast a[2]; a[0]=Z3_mk_eq(ctx,Z3_mk_zero_ext(ctx,k+1,V(x)),Z3_mk_bvadd(ctx,Z3_mk_bvmul(ctx,Z3_mk_zero_ext(ctx,k+1,d.q),zc(c,w+k+1)),Z3_mk_zero_ext(ctx,k+1,d.r))); a[1]=Z3_mk_bvult(ctx,d.r,zc(c,w));
        d.def=Z3_mk_and(ctx,2,a); Z3_inc_ref(ctx,d.def);
        return divs.emplace(std::make_pair(x->id,c),d).first->second;
    }
    Z3_ast divAst(E e) { if (e->k==K::UDiv) return divOf(e->a,e->b->c).q; if (e->k==K::URem) return divOf(e->a,e->b->c).r; return V(lowered(e)); }
    void addDefs(E e, Z3_solver s) {
        if (!e || !e->hasDiv || e->depoch==dep) return; e->depoch=dep;
        if (constDiv(e)) { if (e->k==K::UDiv||e->k==K::URem) Z3_solver_assert(ctx,s,divOf(e->a,e->b->c).def); else addDefs(lowered(e),s); }
        addDefs(e->a,s); addDefs(e->b,s); addDefs(e->d,s);
    }
    Z3_ast V(E e) { // as BV
        if (e->zbv) return e->zbv;
        Z3_ast r;
        switch (e->k) {
            case K::Const: r = zc(e->c,e->w); break;
            case K::Var: { char nm[32]; snprintf(nm,32,"v%u",(unsigned)e->c); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx,nm), Z3_mk_bv_sort(ctx,e->w)); break; }
            case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: r = Z3_mk_ite(ctx,B(e),zc(1,1),zc(0,1)); break;
            case K::Add: r = Z3_mk_bvadd(ctx,V(e->a),V(e->b)); break;
            case K::Sub: r = Z3_mk_bvsub(ctx,V(e->a),V(e->b)); break;
            case K::Mul: r = Z3_mk_bvmul(ctx,V(e->a),V(e->b)); break;
            case K::UDiv: r = constDiv(e) ? divAst(e) : Z3_mk_bvudiv(ctx,V(e->a),V(e->b)); break;
            case K::SDiv: r = constDiv(e) ? divAst(e) : Z3_mk_bvsdiv(ctx,V(e->a),V(e->b)); break;
            case K::URem: r = constDiv(e) ? divAst(e) : Z3_mk_bvurem(ctx,V(e->a),V(e->b)); break;
            case K::SRem: r = constDiv(e) ? divAst(e) : Z3_mk_bvsrem(ctx,V(e->a),V(e->b)); break;
            case K::And: r = Z3_mk_bvand(ctx,V(e->a),V(e->b)); break;
            case K::Or: r = Z3_mk_bvor(ctx,V(e->a),V(e->b)); break;
            case K::Xor: r = Z3_mk_bvxor(ctx,V(e->a),V(e->b)); break;
            case K::Shl: r = Z3_mk_bvshl(ctx,V(e->a),V(e->b)); break;
            case K::LShr: r = Z3_mk_bvlshr(ctx,V(e->a),V(e->b)); break;
            case K::AShr: r = Z3_mk_bvashr(ctx,V(e->a),V(e->b)); break;
            case K::Ite: r = Z3_mk_ite(ctx,B(e->a),V(e->b),V(e->d)); break;
            case K::ZExt: r = Z3_mk_zero_ext(ctx,e->w-e->a->w,V(e->a)); break;
            case K::SExt: r = Z3_mk_sign_ext(ctx,e->w-e->a->w,V(e->a)); break;
            case K::Extract: r = Z3_mk_extract(ctx,(unsigned)e->c+e->w-1,(unsigned)e->c,V(e->a)); break;
            case K::Concat: r = Z3_mk_concat(ctx,V(e->a),V(e->b)); break;
            default: abort();
        }
        Z3_inc_ref(ctx,r); e->zbv=r; return r;
    }
    // Is  (cons restricted to the slice relevant to c) /\ c  satisfiable?   1 sat, 0 unsat, -1 unknown.
    // model is updated in place (only slice variables) when sat.
    int check(const std::vector<E>& cons, E c, std::vector<u64>* model) {
        ++st.queries;
        if (c->k==K::Const && c->c==0) return 0;
        std::vector<E> slice; 
        if (c->k!=K::Const) {
            std::vector<uint32_t> vs = c->vs->v;
            std::vector<char> used(cons.size(),0);
            bool ch=true;
            while (ch) {
                ch=false;
                for (size_t i=cons.size(); i-- >0;) {
                    if (used[i]) continue;
                    const auto& o = cons[i]->vs->v;
                    bool hit=false;
                    size_t p=0,q=0;
                    while (p<vs.size() && q<o.size()) { if (vs[p]==o[q]) { hit=true; break; } if (vs[p]<o[q]) ++p; else ++q; }
                    if (hit) {
                        used[i]=1; slice.push_back(cons[i]);
                        std::vector<uint32_t> r; std::set_union(vs.begin(),vs.end(),o.begin(),o.end(),std::back_inserter(r));
                        if (r.size()!=vs.size()) ch=true;
                        vs.swap(r);
                    }
                }
            }
        }
        std::vector<uint32_t> key; key.reserve(slice.size()+1);
        for (E e: slice) key.push_back(e->id);
        key.push_back(c->id);
        std::sort(key.begin(),key.end());
        key.erase(std::unique(key.begin(),key.end()),key.end());
        auto it = cache.find(key);
        if (it==cache.end()) {
            ++st.z3queries;
            auto t0=std::chrono::steady_clock::now();
            Z3_solver_push(ctx,slv);
            for (E e: slice) Z3_solver_assert(ctx,slv,B(e));
            Z3_solver_assert(ctx,slv,B(c));
            ++dep; for (E e: slice) addDefs(e,slv); addDefs(c,slv);
            Z3_lbool r = Z3_solver_check(ctx,slv); Z3_solver used=slv;
            if (r==Z3_L_UNDEF) { // undecided within its short limit
                used=slv2; Z3_solver_push(ctx,slv2);
                for (E e: slice) Z3_solver_assert(ctx,slv2,B(e));
                Z3_solver_assert(ctx,slv2,B(c));
                ++dep; for (E e: slice) addDefs(e,slv2); addDefs(c,slv2);
                r=Z3_solver_check(ctx,slv2);
            }
            Res res; res.r = r==Z3_L_TRUE ? 1 : r==Z3_L_FALSE ? 0 : -1;
            if (dump && dumpLeft && res.r>=0) {
                --dumpLeft;
                fprintf(dump,"; expect %s\n(reset)\n(set-logic QF_BV)\n%s(check-sat)\n", res.r?"sat":"unsat", Z3_solver_to_string(ctx,slv));
                fflush(dump);
            }
            if (res.r==1) {
                Z3_model m = Z3_solver_get_model(ctx,used);
                Z3_model_inc_ref(ctx,m);
                const VarSet* all=c->vs; for (E e: slice) all=X.unite(all,e->vs);
                for (uint32_t v: all->v) {
                    Z3_ast out; E ve = varExpr(v);
                    if (Z3_model_eval(ctx,m,V(ve),true,&out)) {
                        u64 val=0; Z3_inc_ref(ctx,out);
                        if (Z3_get_ast_kind(ctx,out)==Z3_NUMERAL_AST) { if (!Z3_get_numeral_uint64(ctx,out,&val)) val=0; }
                        Z3_dec_ref(ctx,out);
                        res.model.push_back({v,val});
                    }
                }
                Z3_model_dec_ref(ctx,m);
            }
            if (slowLog) { double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if (dt>slowT) fprintf(stderr,"slow %.2fs r=%d slice=%zu c=%s\n",dt,res.r,slice.size(),Z3_ast_to_string(ctx,B(c))); }
            Z3_solver_pop(ctx,slv,1); if (used==slv2) Z3_solver_pop(ctx,slv2,1);
            st.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
            if (res.r==1) ++st.sat; else if (res.r==0) ++st.unsat; else ++st.unknown;
            it = cache.emplace(std::move(key),std::move(res)).first;
        } else ++st.cacheHits;
        if (it->second.r==1 && model) {
            for (auto& p: it->second.model) { if (model->size()<=p.first) model->resize(p.first+1,0); (*model)[p.first]=p.second; }
        }
        return it->second.r;
    }
    std::vector<E> varExprs;
    E varExpr(uint32_t v) { return X.raw(K::Var, X.vars[v].w, v); }
};
