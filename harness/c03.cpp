// C03: bool, char, string, floating point and user-defined command parameters.
#include "hcommon.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <istream>
#include <ostream>
#include <cli/detail/fromstring.h>
using cli::detail::from_string;
#ifndef NB
#define NB 6
#endif
#ifndef NF
#define NF 3
#endif
enum Res { OK, CAST, OTHER };
template <class T> static Res conv(const std::string& s, T& v) { try { v=from_string<T>(s); return OK; } catch (const std::bad_cast&) { return CAST; } catch (...) { return OTHER; } }
ENTRY(h_bool) { // "true", "false", or an integer equal to 0 or 1; everything else is rejected
    int n=symx_choice("len",NB+1); std::string s=symString(n,"s");
    bool v=false; Res r=conv(s,v); symx_observe_u64(r);
    int want=-1;
    if (s=="true") want=1; else if (s=="false") want=0;
    else { size_t i=0; bool neg=false; if (!s.empty() && (s[0]=='+'||s[0]=='-')) { neg=s[0]=='-'; i=1; }
        if (i<s.size()) { bool dig=true; for (size_t k=i;k<s.size();++k) if (!(s[k]>='0'&&s[k]<='9')) dig=false;
            if (dig) { bool lead=true; for (size_t k=i;k+1<s.size();++k) if (s[k]!='0') lead=false; if (lead && s.back()=='0') want=0; else if (lead && s.back()=='1' && !neg) want=1; } } }
    if (want<0) { symx_assert(r==CAST,"not a boolean but accepted"); symx_reach("rejected"); }
    else { symx_assert(r==OK,"boolean rejected"); if (r==OK) { symx_assert(v==(want==1),"wrong boolean"); symx_observe_u64(v); } symx_reach("accepted"); }
}
// what a narrower type would take for a 0 or a 1
static std::string mul(std::string d, int m) { int c=0; for (size_t i=d.size();i-->0;) { c+=(d[i]-'0')*m; d[i]=(char)('0'+c%10); c/=10; } return c?std::to_string(c)+d:d; }
ENTRY(h_bool_big) { int k=1+pick("power",66), m=pick("multiple",5), sign=pick("sign",3); std::string d="1"; for (int i=0;i<k;++i) d=mul(d,2); if (m) d=mul(d,m+1); d.pop_back();
    std::string s=(sign==1?"-":sign==2?"+":"")+d+symString(1,"last"); bool v=false; Res r=conv(s,v); char c=s.back();
    if (d.empty() && (c=='0'||(c=='1'&&sign!=1))) { symx_assert(r==OK && v==(c=='1'),"boolean rejected or wrong"); symx_reach("accepted"); } else { symx_assert(r==CAST,"not a boolean but accepted"); symx_reach("rejected"); } }
ENTRY(h_char) { int n=symx_choice("len",4); std::string s=symString(n,"s"); char c=0; Res r=conv(s,c); symx_observe_u64(r);
    if (n==1) { symx_assert(r==OK,"single character rejected"); if (r==OK) { symx_assert(c==s[0],"wrong character"); symx_observe_u64((unsigned char)c); } symx_reach("accepted"); } else { symx_assert(r==CAST,"a char parameter is exactly one character"); symx_reach("rejected"); } }
ENTRY(h_string) { int n=symx_choice("len",9); std::string s=symString(n,"s"); std::string v="stale"; Res r=conv(s,v); symx_assert(r==OK,"string rejected"); expectEq(v,s,"string altered"); observe(v); symx_reach("accepted"); }
// floating point: accepted iff the whole text is what the C library reads as a number, has no blank in it and is in range
static bool cspace(char c) { return c==' '||(c>=9&&c<=13); }
template <class T> struct Fp; 
template <> struct Fp<float> { static float go(const char* s, char** e) { return strtof(s,e); } };
template <> struct Fp<double> { static double go(const char* s, char** e) { return strtod(s,e); } };
template <> struct Fp<long double> { static long double go(const char* s, char** e) { return strtold(s,e); } };
template <class T> static void fp(const std::string& s) {
    T got=0; Res r=conv(s,got);
    bool blank=false; for (char c : s) if (cspace(c)) blank=true;
    char* e=nullptr; errno=0; T want=Fp<T>::go(s.c_str(),&e);
    bool acc = !blank && e==s.c_str()+s.size() && e!=s.c_str() && errno!=ERANGE;
    symx_assert(r!=OTHER,"conversion fails with something that is not a bad_cast"); symx_observe_u64(r);
    if (acc) { symx_assert(r==OK,"number rejected"); if (r==OK) { unsigned char a[sizeof(T)], b[sizeof(T)]; size_t n=sizeof(T)==16?10:sizeof(T); memcpy(a,&got,n); memcpy(b,&want,n); symx_assert(memcmp(a,b,n)==0,"wrong value"); } symx_reach("accepted"); }
    else { symx_assert(r==CAST,"malformed or out of range number accepted"); symx_reach("rejected"); }
}
template <class T> static void fpAll() { int n=symx_choice("len",NF+1); fp<T>(symString(n,"s")); }
ENTRY(h_float) { fpAll<float>(); }
ENTRY(h_double) { fpAll<double>(); }
ENTRY(h_ldouble) { fpAll<long double>(); }
// one arbitrary byte at any position of typical texts (concrete value semantics when the byte happens to be pinned)
static const char* const fpTexts[]={"1.5","-0.25","+3","1e3","1E-2","1e400","1e-400","-1e5000","nan","-inf","infinity","nan(1)","0x1p3","0x.8","0x","1e","1e+",".5","5.",".","-","1.5f","1,5","1e39","3.4028236e38","1e-46","1e308","1.8e308","123456789012345678901234567890","0.1","16777217"};
template <class T> static void fpTable() { int k=symx_choice("text",(int)(sizeof fpTexts/sizeof *fpTexts)); std::string s=fpTexts[k]; int m=symx_choice("mode",3); if (m==1) { int p=symx_choice("at",(int)s.size()+1); s.insert(s.begin()+p,(char)symx_u64("byte",8)); } else if (m==2 && s.size()>0) { int p=symx_choice("at",(int)s.size()); s[p]=(char)symx_u64("byte",8); } fp<T>(s); }
ENTRY(h_float_texts) { fpTable<float>(); }
ENTRY(h_double_texts) { fpTable<double>(); }
ENTRY(h_ldouble_texts) { fpTable<long double>(); }
// a user-defined type with operator>>: accepted iff the operator succeeds and nothing but blanks follows
struct Pair { int a, b; };
static std::istream& operator>>(std::istream& is, Pair& p) { char c; if (is >> p.a >> c >> p.b) { if (c!=',') is.setstate(std::ios::failbit); } return is; }
ENTRY(h_custom) {
    int n=symx_choice("len",6); std::string s=symString(n,"s");
    for (char c : s) symx_assume((c>='0'&&c<='9')||c==','||c==' '||c=='-'||c=='x');
    Pair v{0,0}; Res r=conv(s,v); symx_observe_u64(r);
    // hand parse: blanks int blanks ',' blanks int blanks
    size_t i=0; auto ws=[&]{ while (i<s.size() && s[i]==' ') ++i; };
    auto num=[&](int& o) { ws(); bool neg=false; if (i<s.size() && s[i]=='-') { neg=true; ++i; } if (!(i<s.size() && s[i]>='0'&&s[i]<='9')) return false; int m=0; while (i<s.size() && s[i]>='0'&&s[i]<='9') m=m*10+(s[i++]-'0'); o=neg?-m:m; return true; };
    int a=0,b=0; bool ok=num(a); if (ok) { ws(); ok=i<s.size() && s[i]==','; ++i; } if (ok) ok=num(b); if (ok) { ws(); ok=i==s.size(); }
    if (ok) { symx_assert(r==OK,"valid user-defined value rejected"); if (r==OK) { symx_assert(v.a==a && v.b==b,"wrong user-defined value"); symx_observe_u64(v.a); symx_observe_u64(v.b); } symx_reach("accepted"); }
    else { symx_assert(r==CAST,"invalid user-defined value accepted"); symx_reach("rejected"); }
}
// long texts
ENTRY(h_long_text) {
    static const int lens[]={8,15,16,17,31,32,63,64,127,128,255,256,257,1000}; int n=lens[pick("len",14)];
    switch (pick("type",6)) {
        case 0: { std::string s(n,'x'); s[n/2]=(char)symx_u64("byte",8); std::string v="stale"; Res r=conv(s,v); symx_assert(r==OK,"string rejected"); expectEq(v,s,"string altered"); break; }
        case 1: { std::string s(n,'x'); s[n-1]=(char)symx_u64("byte",8); char c=0; symx_assert(conv(s,c)==CAST,"a char parameter is exactly one character"); break; }
        case 2: { std::string s=(pick("plus",2)?"+":"")+std::string(n,'0')+symString(1,"digit"); bool v=false; Res r=conv(s,v); char d=s.back(); if (d=='0'||d=='1') { symx_assert(r==OK && v==(d=='1'),"boolean rejected or wrong"); } else symx_assert(r==CAST,"not a boolean but accepted"); break; }
        case 3: { std::string s=std::string(n,'7')+"."+std::string(n,'3'); s+="5x e."[pick("byte",5)]; fp<double>(s); break; }
        case 4: { std::string s="0."+std::string(n,'0')+"1"+std::string(1,"5x e."[pick("byte",5)]); fp<float>(s); break; }
        case 5: { std::string s=(pick("minus",2)?"-":"")+std::string(n,'9')+"5x e."[pick("byte",5)]; fp<long double>(s); break; }
    }
    symx_reach("decided");
}
ENTRY(h_again) { // a conversion does not depend on what was converted before, or on what other code left in errno
    static const char* const before[]={"1e400","abc","1","","1e-400","x y"}; errno=pick("errno",2)?ERANGE:0; std::string a=before[pick("before",6)];
    switch (pick("first",5)) { case 0: { double v; conv(a,v); break; } case 1: { float v; conv(a,v); break; } case 2: { bool v; conv(a,v); break; } case 3: { Pair v; conv(a,v); break; } default: { char v; conv(a,v); break; } }
    switch (pick("then",6)) {
        case 0: { std::string s=symString(2,"s"); fp<double>(s); break; } case 1: { static const char* const t[]={"1.5","1e400","0","-2e3x","1e-400"}; std::string s=t[pick("text",5)]; int k=pick("type",3); if (k==0) fp<float>(s); else if (k==1) fp<double>(s); else fp<long double>(s); break; }
        case 2: { std::string s=symString(1,"s"); bool v=false; Res r=conv(s,v); if (s[0]=='0'||s[0]=='1') symx_assert(r==OK && v==(s[0]=='1'),"boolean rejected or wrong"); else symx_assert(r==CAST,"not a boolean but accepted"); break; }
        case 3: { bool v=false; std::string s=pick("true",2)?"true":"false"; symx_assert(conv(s,v)==OK && v==(s.size()==4),"boolean rejected or wrong"); break; }
        case 4: { std::string s=symString(1,"s"); symx_assume(s[0]>='0'&&s[0]<='9'); s="7,"+s; Pair v{0,0}; symx_assert(conv(s,v)==OK && v.a==7 && v.b==s[2]-'0',"valid user-defined value rejected or wrong"); break; }
        default: { std::string s=symString(1,"s"), v="stale"; char c=0; symx_assert(conv(s,c)==OK && c==s[0],"single character rejected"); symx_assert(conv(s,v)==OK,"string rejected"); expectEq(v,s,"string altered"); break; }
    }
    symx_reach("again");
}
