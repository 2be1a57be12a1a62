// C02: numeric conversion of command parameters is exact or rejected.
#include "hcommon.h"
#include <algorithm>
#include <cerrno>
#include <limits>
#include <type_traits>
#include <cli/detail/fromstring.h>
using cli::detail::from_string;
#ifndef EXTRA
#define EXTRA 0
#endif
// Independent statement: [+|-]digits (the minus only for signed types), read as a mathematical integer, accepted iff it is representable.
// Representability is decided on the decimal digits (compared with the digits of the limit), the value modulo 2^bits: together they are exact.
template <class T> static bool oracle(const std::string& s, T& v) {
    using U = typename std::make_unsigned<T>::type;
    size_t i=0; bool neg=false;
    if (s.empty()) return false;
    if (s[0]=='+') i=1; else if (s[0]=='-') { if (!std::is_signed<T>::value) return false; neg=true; i=1; }
    if (i==s.size()) return false;
    for (size_t k=i;k<s.size();++k) { unsigned char c=(unsigned char)s[k]; if (!(c>='0' && c<='9')) return false; }
    U m=0; for (size_t k=i;k<s.size();++k) m=(U)(m*10+(U)(s[k]-'0'));
    std::string lim=std::to_string(std::numeric_limits<T>::max()); if (neg) ++lim.back(); // 127 -> 128: the last digit of 2^n-1 is never 9
    while (i<s.size() && s[i]=='0') ++i;
    size_t n=s.size()-i; bool fits=true;
    if (n>lim.size()) fits=false;
    else if (n==lim.size()) fits = memcmp(s.data()+i,lim.data(),n)<=0;
    v = neg ? (T)(U)(0-m) : (T)m;
    return fits;
}
template <class T> static void check(const std::string& s) {
    T want{}, got{}; bool thrown=false, other=false;
    bool acc=oracle<T>(s,want);
    try { got=from_string<T>(s); } catch (const std::bad_cast&) { thrown=true; } catch (...) { other=true; }
    symx_assert(!other,"conversion fails with something that is not a bad_cast");
    symx_observe_u64(thrown);
    if (acc) { symx_assert(!thrown,"representable integer rejected"); if (!thrown) { symx_observe_u64((uint64_t)got); symx_assert(got==want,"wrong value"); } symx_reach("accepted"); }
    else { symx_assert(thrown,"malformed or out of range integer accepted"); symx_reach("rejected"); }
}
#define FULL(name,T,N) ENTRY(name) { int n=symx_choice("len",(N)+EXTRA+1); check<T>(symString(n,"s")); }
FULL(h_schar,signed char,5)
FULL(h_uchar,unsigned char,4)
FULL(h_short,short,6)
FULL(h_ushort,unsigned short,6)
FULL(h_int,int,4)
FULL(h_uint,unsigned int,4)
FULL(h_long,long,4)
FULL(h_ulong,unsigned long,4)
FULL(h_llong,long long,4)
FULL(h_ullong,unsigned long long,4)
// the neighbourhood of the limits: the limit's leading digits, then K arbitrary bytes, optionally one more, optionally a sign and a leading zero
template <class T> static void boundary() {
    const int K=2;
    bool s=std::is_signed<T>::value;
    int sign=symx_choice("sign",s?3:2), zero=symx_choice("zero",2), more=symx_choice("more",2), which=symx_choice("which",2);
    std::string lim=std::to_string(std::numeric_limits<T>::max());
    if (which) lim=std::string(lim.size(),'9');        // the largest number of that many digits
    std::string t; if (sign) t+=sign==1?'+':'-'; if (zero) t+='0';
    t+=lim.substr(0,lim.size()-K)+symString(K+more,"tail");
    check<T>(t);
}
ENTRY(h_limit_int) { boundary<int>(); }
ENTRY(h_limit_uint) { boundary<unsigned int>(); }
ENTRY(h_limit_long) { boundary<long>(); }
ENTRY(h_limit_ulong) { boundary<unsigned long>(); }
ENTRY(h_limit_llong) { boundary<long long>(); }
ENTRY(h_limit_ullong) { boundary<unsigned long long>(); }
// long texts: a sign, many zeros (or a one and many zeros), then two arbitrary bytes
template <class T> static void longText(const std::string& s) { check<T>(s); }
ENTRY(h_long_text) {
    static const int zeros[]={2,5,9,10,11,18,19,20,21,31,32,63,64,65,127,128,255,256,257,1000};
    bool one=pick("one",2); int n=zeros[pick("zeros",20)], sign=pick("sign",3); std::string s; if (sign) s+=sign==1?'+':'-'; if (one) s+='1'; s+=std::string(n,'0')+symString(one?1:2,"tail");
    switch (pick("type",10)) { case 0: longText<signed char>(s); break; case 1: longText<unsigned char>(s); break; case 2: longText<short>(s); break; case 3: longText<unsigned short>(s); break; case 4: longText<int>(s); break; case 5: longText<unsigned int>(s); break; case 6: longText<long>(s); break; case 7: longText<unsigned long>(s); break; case 8: longText<long long>(s); break; case 9: longText<unsigned long long>(s); break; }
}
// numbers all over the lengths where the overflow happens: two leading digits, as many more (or up to two more) as the limit has, the last one arbitrary
template <class T> static void spread() {
    std::string lim=std::to_string(std::numeric_limits<T>::max()); int n=(int)lim.size()+pick("more",3), lead=10+pick("lead",90), fill=pick("fill",3), sign=std::is_signed<T>::value?pick("sign",2):0;
    std::string t=sign?"-":""; t+=std::to_string(lead); if ((int)lim.size()<3) symx_prune();
    while ((int)t.size()-sign<n-1) t+=fill==0?'0':fill==1?'9':lim[(t.size()-sign)%lim.size()];
    check<T>(t+symString(1,"last"));
}
ENTRY(h_spread) { switch (pick("type",10)) { case 0: spread<signed char>(); break; case 1: spread<unsigned char>(); break; case 2: spread<short>(); break; case 3: spread<unsigned short>(); break; case 4: spread<int>(); break; case 5: spread<unsigned int>(); break; case 6: spread<long>(); break; case 7: spread<unsigned long>(); break; case 8: spread<long long>(); break; case 9: spread<unsigned long long>(); break; } }
// what a narrower or wider type would take for a small number: multiples of the powers of two, the last digit arbitrary
static std::string mul(std::string d, int m) { int c=0; for (size_t i=d.size();i-->0;) { c+=(d[i]-'0')*m; d[i]=(char)('0'+c%10); c/=10; } return c?std::to_string(c)+d:d; }
template <class T> static void powers() { int k=7+pick("power",60), m=pick("multiple",3), sign=pick("sign",3); std::string d="1"; for (int i=0;i<k;++i) d=mul(d,2); if (m) d=mul(d,m+1); d.pop_back(); check<T>((sign==1?"-":sign==2?"+":"")+d+symString(1,"last")); }
ENTRY(h_powers) { switch (pick("type",10)) { case 0: powers<signed char>(); break; case 1: powers<unsigned char>(); break; case 2: powers<short>(); break; case 3: powers<unsigned short>(); break; case 4: powers<int>(); break; case 5: powers<unsigned int>(); break; case 6: powers<long>(); break; case 7: powers<unsigned long>(); break; case 8: powers<long long>(); break; case 9: powers<unsigned long long>(); break; } }
#ifndef AGAIN
#define AGAIN 3
#endif
template <class T> static void first(const std::string& s) { try { from_string<T>(s); } catch (const std::bad_cast&) {} }
ENTRY(h_again) { // a conversion does not depend on what was converted before, or on what other code left in errno
    errno=pick("errno",2)?ERANGE:0; std::string a=pick("before",3)==0?std::string("99999999999999999999"):symString(2,"before");
    switch (pick("first",3)) { case 0: first<unsigned char>(a); break; case 1: first<int>(a); break; default: first<unsigned long long>(a); break; }
    std::string s=symString(pick("len",AGAIN+1),"s");
    switch (pick("type",10)) { case 0: check<signed char>(s); break; case 1: check<unsigned char>(s); break; case 2: check<short>(s); break; case 3: check<unsigned short>(s); break; case 4: check<int>(s); break; case 5: check<unsigned int>(s); break; case 6: check<long>(s); break; case 7: check<unsigned long>(s); break; case 8: check<long long>(s); break; case 9: check<unsigned long long>(s); break; }
}
