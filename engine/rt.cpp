// Environment model linked into every harness for symbolic execution:
// real libstdc++ template code (strings, streambufs, streams) instantiated here, plus hand-written
// bodies for the parts of libstdc++.so / libc that have no source in the headers.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cxxabi.h>
#include <string>
#include <locale>
#include <ostream>
#include <istream>
#include <streambuf>
#include <sstream>
#include <fstream>
#include <stdexcept>
#include <exception>
#include <typeinfo>
#include <functional>
#include <new>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <system_error>
#include <map>
#include <unordered_map>
#include <list>
#include <memory>
#include <chrono>
#include <optional>
#include <variant>
#include <any>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <pthread.h>
#include <time.h>
#include "symx.h"
#undef errno

extern "C" uint64_t fakeClock; extern "C" int symx_host_fmt(double, int, int, char*);
extern "C" { void __symx_unwind(void*); void __symx_fail(const char*, const char*); void __symx_unsupported(const char*); }


// ---------------------------------------------------------------- exceptions
struct ExcHdr { std::type_info* ti; void* adj; void(*dtor)(void*); long refs; long handlers; void* next; u_int64_t pad[2]; };
static_assert(sizeof(ExcHdr)==64,"");
static ExcHdr* H(void* o) { return (ExcHdr*)((char*)o-64); }
struct EhGlobals { void* caught; long uncaught; };
static EhGlobals ehg[8];
static EhGlobals& EG() { return ehg[symx_tid()&7]; }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { char* p=(char*)malloc(n+64); memset(p,0,64); return p+64; }
void __cxa_free_exception(void* o) noexcept { free((char*)o-64); }
void* symx_ipe(void* o, std::type_info* ti, void(*d)(void*)) noexcept asm("__cxa_init_primary_exception");
void* symx_ipe(void* o, std::type_info* ti, void(*d)(void*)) noexcept { ExcHdr* h=H(o); h->ti=ti; h->dtor=d; h->refs=0; h->adj=o; return h; }
static void excRelease(void* o) { if (__atomic_sub_fetch(&H(o)->refs,1,__ATOMIC_ACQ_REL)==0) { if (H(o)->dtor) H(o)->dtor(o); __cxa_free_exception(o); } }
__attribute__((noreturn)) void symx_cxa_throw(void* o, std::type_info* ti, void(*d)(void*)) asm("__cxa_throw");
void symx_cxa_throw(void* o, std::type_info* ti, void(*d)(void*)) { ExcHdr* h=H(o); h->ti=ti; h->dtor=d; h->refs=1; h->handlers=0; h->next=nullptr; EG().uncaught++; __symx_unwind(o); __builtin_unreachable(); }
void* __cxa_get_exception_ptr(void* o) noexcept { return H(o)->adj; }
void* __cxa_begin_catch(void* o) noexcept { ExcHdr* h=H(o); EhGlobals& g=EG(); h->handlers = (h->handlers<0?-h->handlers:h->handlers)+1; g.uncaught--; if (g.caught!=o) { h->next=g.caught; g.caught=o; } return h->adj; }
void symx_end_catch() asm("__cxa_end_catch");
void symx_end_catch() {
    EhGlobals& g=EG(); void* o=g.caught; if (!o) return; ExcHdr* h=H(o);
    if (h->handlers<0) { if (++h->handlers==0) { g.caught=h->next; } }   // rethrown: still in flight
    else if (--h->handlers==0) { g.caught=h->next; excRelease(o); }
}
__attribute__((noreturn)) void symx_rethrow() asm("__cxa_rethrow");
void symx_rethrow() { EhGlobals& g=EG(); void* o=g.caught; if (!o) std::terminate(); H(o)->handlers=-H(o)->handlers; g.uncaught++; __symx_unwind(o); __builtin_unreachable(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __gxx_personality_v0() { return 0; }
}
namespace std {
int uncaught_exceptions() noexcept { return (int)EG().uncaught; }
bool uncaught_exception() noexcept { return EG().uncaught>0; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __atomic_add_fetch(&H(_M_exception_object)->refs,1,__ATOMIC_ACQ_REL); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { excRelease(_M_exception_object); _M_exception_object=nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const class std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return H(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept { return exception_ptr(EG().caught); }
void rethrow_exception(exception_ptr p) { void* o=p._M_exception_object; __atomic_add_fetch(&H(o)->refs,1,__ATOMIC_ACQ_REL); ExcHdr* h=H(o); (void)h; EG().uncaught++; __symx_unwind(o); __builtin_unreachable(); }
}
namespace __cxxabiv1 {
__fundamental_type_info::~__fundamental_type_info() {}
__pointer_type_info::~__pointer_type_info() {}
__pbase_type_info::~__pbase_type_info() {}
__class_type_info::~__class_type_info() {}
__si_class_type_info::~__si_class_type_info() {}
__vmi_class_type_info::~__vmi_class_type_info() {}
__function_type_info::~__function_type_info() {}
__enum_type_info::~__enum_type_info() {}
__array_type_info::~__array_type_info() {}
}
std::type_info::~type_info() {}
bool std::type_info::__is_pointer_p() const { return false; }
bool std::type_info::__is_function_p() const { return false; }
// dynamic_cast: search the complete object's hierarchy for a public base of the target type
static const char* vtbl(const void* ti) { return *(const char* const*)ti; }
extern "C" { extern const void* symx_si_vt asm("_ZTVN10__cxxabiv120__si_class_type_infoE"); extern const void* symx_vmi_vt asm("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); }
static void* findBase(const std::type_info* t, void* o, const std::type_info* want) {
    if (t==want) return o;
    if (vtbl(t)==(const char*)&symx_si_vt+16) return findBase(((const __cxxabiv1::__si_class_type_info*)t)->__base_type,o,want);
    if (vtbl(t)==(const char*)&symx_vmi_vt+16) { auto* v=(const __cxxabiv1::__vmi_class_type_info*)t; for (unsigned i=0;i<v->__base_count;++i) { auto& b=v->__base_info[i]; long f=b.__offset_flags; if (!(f&2)) continue; long off=f>>8; char* s = (f&1) ? (char*)o + *(long*)(*(char**)o+off) : (char*)o+off; if (void* r=findBase(b.__base_type,s,want)) return r; } }
    return nullptr;
}
extern "C" void* __dynamic_cast(const void* o, const __cxxabiv1::__class_type_info*, const __cxxabiv1::__class_type_info* dst, ptrdiff_t) { char* vt=*(char**)o; void* whole=(char*)o + ((long*)vt)[-2]; return findBase((const std::type_info*)((long*)vt)[-1],whole,dst); }

namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
nested_exception::~nested_exception() noexcept {}
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
// __cow_string: deep-copied C string
__cow_string::__cow_string() : _M_p(strdup("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(nullptr) { char* p=(char*)malloc(s.size()+1); memcpy(p,s.data(),s.size()); p[s.size()]=0; _M_p=p; }
__cow_string::__cow_string(const char* s, size_t n) : _M_p(nullptr) { char* p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; _M_p=p; }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(strdup(o._M_p)) {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p=strdup(""); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this!=&o) { free((void*)_M_p); _M_p=strdup(o._M_p); } return *this; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t=_M_p; _M_p=o._M_p; o._M_p=t; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
#define STDEXC(base) \
 base::base(const string& s) : _M_msg(s) {} base::base(const char* s) : _M_msg(s,strlen(s)) {} base::base(const base& o) noexcept : exception(), _M_msg(o._M_msg) {} base& base::operator=(const base& o) noexcept { _M_msg=o._M_msg; return *this; } \
 base::base(base&& o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {} base& base::operator=(base&& o) noexcept { _M_msg=std::move(o._M_msg); return *this; } base::~base() noexcept {} const char* base::what() const noexcept { return _M_msg._M_p; }
STDEXC(logic_error) STDEXC(runtime_error)
#define DEXC(n,base) n::n(const string& s) : base(s) {} n::n(const char* s) : base(s) {} n::~n() noexcept {}
DEXC(domain_error,logic_error) DEXC(invalid_argument,logic_error) DEXC(length_error,logic_error) DEXC(out_of_range,logic_error) DEXC(range_error,runtime_error) DEXC(overflow_error,runtime_error) DEXC(underflow_error,runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
// system_error / error_category
namespace { struct GenCat final : error_category { const char* name() const noexcept override { return "generic"; } string message(int e) const override { return strerror(e); } }; }
inline namespace _V2 {
error_category::~error_category() noexcept {}
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this==c.category() && c.value()==i; }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i)==c; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
const error_category& generic_category() noexcept { static GenCat c; return c; }
const error_category& system_category() noexcept { static GenCat c; return c; }
}
error_condition error_code::default_error_condition() const noexcept { return error_condition(value(),category()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e,generic_category()),"system_error"); }
ios_base::failure::failure(const string& s) : system_error(error_code(1,generic_category()),s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e,s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e,s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return system_error::what(); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(string(s)); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(string(s)); }
const nothrow_t nothrow{};
}
namespace std { template class basic_string<char>; 
template basic_string<char> operator+(const char*, const basic_string<char>&);
template basic_string<char> operator+(char, const basic_string<char>&);
template basic_string<char> operator+(const basic_string<char>&, const basic_string<char>&); }

// ---------------------------------------------------------------- locale / ctype (classic "C" locale)
struct CtTable { std::ctype_base::mask m[256]; unsigned char lo[256], up[256]; int lo_i[256], up_i[256]; };
static constexpr CtTable mkTab() {
    CtTable t{};
    for (int i=0;i<256;++i) {
        unsigned c=i; unsigned short r=0;
        bool up=c-'A'<26u, lw=c-'a'<26u, dg=c-'0'<10u, xd=dg||((c|32)-'a'<6u), sp=c==32||c-9u<5u, pr=c-32u<95u, gr=c-33u<94u, ct=c<32||c==127, bl=c==32||c==9;
        if (up) r|=std::ctype_base::upper; if (lw) r|=std::ctype_base::lower; if (up||lw) r|=std::ctype_base::alpha; if (dg) r|=std::ctype_base::digit; if (xd) r|=std::ctype_base::xdigit; if (sp) r|=std::ctype_base::space; if (pr) r|=std::ctype_base::print; if (up||lw||dg) r|=(std::ctype_base::alpha|std::ctype_base::digit)&0; if (ct) r|=std::ctype_base::cntrl; if (gr&&!(up||lw||dg)) r|=std::ctype_base::punct; if (bl) r|=std::ctype_base::blank;
        if (gr) r|=(unsigned short)(std::ctype_base::graph & ~(std::ctype_base::alpha|std::ctype_base::digit|std::ctype_base::punct));
        if (up||lw||dg) r|=(unsigned short)(std::ctype_base::alnum & ~(std::ctype_base::alpha|std::ctype_base::digit));
        t.m[i]=r; t.lo[i]=up?i+32:i; t.up[i]=lw?i-32:i; t.lo_i[i]=t.lo[i]; t.up_i[i]=t.up[i];
    }
    return t;
}
static constexpr CtTable ctTab=mkTab();
extern "C" { static const unsigned short* ctB=&ctTab.m[0]; static const int* ctLo=&ctTab.lo_i[0]; static const int* ctUp=&ctTab.up_i[0];
const unsigned short** __ctype_b_loc() { return &ctB; } const int** __ctype_tolower_loc() { return &ctLo; } const int** __ctype_toupper_loc() { return &ctUp; } }
namespace std {
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
locale::id ctype<char>::id; locale::id codecvt<char,char,mbstate_t>::id; locale::id ctype<wchar_t>::id;
ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(d), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t?t:ctTab.m), _M_widen_ok(1), _M_narrow_ok(1) { for (int i=0;i<256;++i) { _M_widen[i]=(char)i; _M_narrow[i]=(char)i; } }
ctype<char>::~ctype() {}
const ctype_base::mask* ctype<char>::classic_table() throw() { return ctTab.m; }
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* b, const char* e) const { for (;b<e;++b) *b=(char)::toupper((unsigned char)*b); return e; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* b, const char* e) const { for (;b<e;++b) *b=(char)::tolower((unsigned char)*b); return e; }
void ctype<char>::_M_widen_init() const { _M_widen_ok=1; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok=1; }
alignas(ctype<char>) static char ctypeStore[sizeof(ctype<char>)];
static const locale::facet* facetArr[8]; 
static long implStore[8];
struct ImplView { _Atomic_word refs; const locale::facet** facets; size_t n; const locale::facet** caches; char** names; };
locale::_Impl* locale::_S_classic; locale::_Impl* locale::_S_global;
size_t locale::id::_M_id() const throw() { if (this==&std::ctype<char>::id) return 0; if (this==&num_put<char>::id) return 1; if (this==&num_get<char>::id) return 2; if (this==&codecvt<char,char,mbstate_t>::id) return 3; return 4; }
locale::locale() throw() : _M_impl(_S_global) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::locale(const char*) : _M_impl(_S_global) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl=o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl==o._M_impl; }
alignas(locale) static char classicStore[sizeof(locale)];
const locale& locale::classic() { return *(const locale*)classicStore; }
locale locale::global(const locale&) { return locale(); }
}
// ---------------------------------------------------------------- iostreams
namespace std {
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws|dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() { if (_M_word!=_M_local_word) { delete[] _M_word; _M_word=nullptr; } }
void ios_base::_M_init() throw() { _M_precision=6; _M_width=0; _M_flags=skipws|dec; _M_ios_locale=locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::register_callback(event_callback, int) { __symx_unsupported("ios_base::register_callback"); }
locale ios_base::imbue(const locale& l) throw() { locale o=_M_ios_locale; _M_ios_locale=l; return o; }
int ios_base::xalloc() throw() { static int n=4; return n++; }
bool ios_base::sync_with_stdio(bool b) { return b; }
ios_base::_Words& ios_base::_M_grow_words(int ix, bool) { _Words* w=new _Words[ix+1]; for (int i=0;i<_M_word_size;++i) w[i]=_M_word[i]; if (_M_word!=_M_local_word) delete[] _M_word; _M_word=w; _M_word_size=ix+1; return _M_word[ix]; }

template<typename N> static ostream& putInt(ostream& os, N v) {
    ostream::sentry s(os);
    if (s) {
        char buf[72]; int n=0; ios_base::fmtflags f=os.flags(); ios_base::fmtflags bf=f&ios_base::basefield; unsigned base = bf==ios_base::hex?16:bf==ios_base::oct?8:10;
        bool neg=false; typename make_unsigned<N>::type u=(typename make_unsigned<N>::type)v;
        if (base==10 && is_signed<N>::value && v<0) { neg=true; u=0-u; }
        bool up=f&ios_base::uppercase, nz=u!=0;
        do { unsigned d=(unsigned)(u%base); buf[n++]=(up?"0123456789ABCDEF":"0123456789abcdef")[d]; u/=base; } while (u);
        int np=0; if (neg) { buf[n++]='-'; np=1; } else if ((f&ios_base::showpos)&&base==10&&is_signed<N>::value) { buf[n++]='+'; np=1; }
        if ((f&ios_base::showbase) && nz && base==16) { buf[n++]=up?'X':'x'; buf[n++]='0'; np=2; } else if ((f&ios_base::showbase) && nz && base==8) buf[n++]='0';
        int w=(int)os.width(); os.width(0); int pad=w>n?w-n:0;
        char full[160]; int k=0; auto put=[&](char c) { if (k>=160) __symx_unsupported("very wide number"); full[k++]=c; };
        ios_base::fmtflags adj=f&ios_base::adjustfield; char fc=pad?os.fill():' ';
        if (adj!=ios_base::left && adj!=ios_base::internal) for (;pad;--pad) put(fc);
        for (int i=0;i<np;++i) put(buf[--n]);
        for (;pad && adj==ios_base::internal;--pad) put(fc);
        while (n) put(buf[--n]);
        for (;pad;--pad) put(fc);
        try { if (os.rdbuf()->sputn(full,k)!=k) os.setstate(ios_base::badbit); } catch (...) { os._M_setstate(ios_base::badbit); }
    }
    return os;
}
static ostream& putFp(ostream& os, double v) { // the host's conversion of a concrete value; a symbolic one is outside the model
    ostream::sentry g(os);
    if (g) { uint64_t bits; memcpy(&bits,&v,8); if (symx_is_symbolic(bits)) __symx_unsupported("ostream << symbolic double");
        ios_base::fmtflags f=os.flags(), ff=f&ios_base::floatfield; char m=ff==ios_base::fixed?'f':ff==ios_base::scientific?'e':ff==ios_base::floatfield?'a':'g'; if (f&ios_base::uppercase) m-=32;
        char buf[400]; int n=symx_host_fmt(v,m|((f&ios_base::showpos)?256:0)|((f&ios_base::showpoint)?512:0),ff==ios_base::floatfield?-1:(int)os.precision(),buf);
        int w=(int)os.width(); os.width(0); if (w>n && (f&ios_base::adjustfield)==ios_base::internal) __symx_unsupported("internal padding of a double");
        string s(buf,n); if (w>n) { if ((f&ios_base::adjustfield)==ios_base::left) s.append(w-n,os.fill()); else s.insert((size_t)0,(size_t)(w-n),os.fill()); }
        try { if (os.rdbuf()->sputn(s.data(),(streamsize)s.size())!=(streamsize)s.size()) os.setstate(ios_base::badbit); } catch (...) { os._M_setstate(ios_base::badbit); } }
    return os; }
template<> template<> ostream& ostream::_M_insert(long v) { return putInt(*this,v); }
template<> template<> ostream& ostream::_M_insert(unsigned long v) { return putInt(*this,v); }
template<> template<> ostream& ostream::_M_insert(long long v) { return putInt(*this,v); }
template<> template<> ostream& ostream::_M_insert(unsigned long long v) { return putInt(*this,v); }
template<> template<> ostream& ostream::_M_insert(bool v) { if (flags()&ios_base::boolalpha) return *this << (v?"true":"false"); return putInt(*this,(long)v); }
template<> template<> ostream& ostream::_M_insert(double v) { return putFp(*this,v); }
template<> template<> ostream& ostream::_M_insert(long double) { __symx_unsupported("ostream << long double"); return *this; }
template<> template<> ostream& ostream::_M_insert(const void* p) { ios_base::fmtflags f=flags(); setf(ios_base::hex,ios_base::basefield); setf(ios_base::showbase); unsetf(ios_base::uppercase); putInt(*this,(unsigned long)p); flags(f); return *this; }
template<> ostream& ostream::operator<<(short v) { return putInt(*this,(long)v); }
template<> ostream& ostream::operator<<(int v) { return putInt(*this,(long)v); }
template<typename N> static istream& getInt(istream& is, N& out) {
    istream::sentry s(is,false); ios_base::iostate st=ios_base::goodbit;
    if (s) try {
        auto* sb=is.rdbuf(); int c=sb->sgetc(); bool neg=false; const int eof=char_traits<char>::eof();
        if (c=='-'||c=='+') { neg=c=='-'; c=sb->snextc(); }
        unsigned __int128 v=0; bool any=false, over=false; const unsigned __int128 lim=(unsigned __int128)1<<70;
        while (c!=eof && isdigit(c)) { any=true; v=v*10+(c-'0'); if (v>lim) { over=true; v=lim; } c=sb->snextc(); }
        if (c==eof) st|=ios_base::eofbit;
        if (!any) { out=0; st|=ios_base::failbit; }
        else {
            unsigned __int128 mx=(unsigned __int128)numeric_limits<N>::max();
            if (is_signed<N>::value) { if (over || v>(neg?mx+1:mx)) { out=neg?numeric_limits<N>::min():numeric_limits<N>::max(); st|=ios_base::failbit; } else out=(N)(neg?0-(unsigned long long)v:(unsigned long long)v); }
            else { if (over || v>mx) { out=numeric_limits<N>::max(); st|=ios_base::failbit; } else out=(N)(neg?0-(unsigned long long)v:(unsigned long long)v); }
        }
    } catch (...) { is._M_setstate(ios_base::badbit); }
    if (st) is.setstate(st);
    return is;
}
// num_get's accumulation of the number's text (C locale: no infinities, no hexadecimal), then the conversion of rtc.cpp
static float fpConv(const char* s, char** e, float*) { return strtof(s,e); } static double fpConv(const char* s, char** e, double*) { return strtod(s,e); } static long double fpConv(const char* s, char** e, long double*) { return strtold(s,e); }
template<class T> static istream& getFp(istream& in, T& v) {
    ios_base::iostate err=ios_base::goodbit; istream::sentry g(in,false);
    if (g) try {
        string x; auto* sb=in.rdbuf(); int c=sb->sgetc(); auto next=[&] { c=sb->snextc(); };
        if (c=='+'||c=='-') { x+=(char)c; next(); }
        bool man=false, dec=false, sci=false;
        while (c=='0') { if (!man) { x+='0'; man=true; } next(); }
        while (c!=char_traits<char>::eof()) {
            if (isdigit(c)) { x+=(char)c; man=true; }
            else if (c=='.' && !dec && !sci) { x+='.'; dec=true; }
            else if ((c=='e'||c=='E') && !sci && man) { x+='e'; sci=true; next(); if (c=='+'||c=='-') x+=(char)c; else continue; }
            else break;
            next();
        }
        if (c==char_traits<char>::eof()) err|=ios_base::eofbit;
        char* e; int& er=*__errno_location(); er=0; T r=fpConv(x.c_str(),&e,(T*)nullptr);
        if (e==x.c_str() || *e) { v=0; err|=ios_base::failbit; }
        else if (er==ERANGE && r>numeric_limits<T>::max()) { v=numeric_limits<T>::max(); err|=ios_base::failbit; }
        else if (er==ERANGE && r<-numeric_limits<T>::max()) { v=-numeric_limits<T>::max(); err|=ios_base::failbit; }
        else v=r;
    } catch (...) { in._M_setstate(ios_base::badbit); }
    if (err) in.setstate(err);
    return in; }
template<> template<> istream& istream::_M_extract(long& v) { return getInt(*this,v); }
template<> template<> istream& istream::_M_extract(unsigned long& v) { return getInt(*this,v); }
template<> template<> istream& istream::_M_extract(long long& v) { return getInt(*this,v); }
template<> template<> istream& istream::_M_extract(unsigned long long& v) { return getInt(*this,v); }
template<> template<> istream& istream::_M_extract(unsigned short& v) { return getInt(*this,v); }
template<> template<> istream& istream::_M_extract(unsigned int& v) { return getInt(*this,v); }
template<> template<> istream& istream::_M_extract(bool& v) { long x; getInt(*this,x); v=x!=0; return *this; }
template<> template<> istream& istream::_M_extract(float& v) { return getFp(*this,v); }
template<> template<> istream& istream::_M_extract(double& v) { return getFp(*this,v); }
template<> template<> istream& istream::_M_extract(long double& v) { return getFp(*this,v); }
template<> template<> istream& istream::_M_extract(void*&) { __symx_unsupported("istream >> void*"); return *this; }
template<> istream& istream::operator>>(short& v) { return getInt(*this,v); }
template<> istream& istream::operator>>(int& v) { return getInt(*this,v); }
}
// ---------------------------------------------------------------- in-memory file system behind basic_filebuf
struct VFile { char name[128]; char* data; size_t len, cap; bool exists; };
static VFile vfs[8];
static VFile* vfind(const char* n, bool create) { for (auto& f : vfs) if (f.name[0] && !strcmp(f.name,n)) return &f; if (!create) return nullptr; for (auto& f : vfs) if (!f.name[0]) { strncpy(f.name,n,127); return &f; } __symx_unsupported("too many files"); return nullptr; }
static void vput(VFile* f, size_t pos, const char* p, size_t n) { if (pos+n>f->cap) { size_t c=(pos+n)*2+64; char* d=(char*)malloc(c); memset(d,0,c); if (f->len) memcpy(d,f->data,f->len); free(f->data); f->data=d; f->cap=c; } memcpy(f->data+pos,p,n); if (pos+n>f->len) f->len=pos+n; }
extern "C" VFile* symx_vopen(const char* n, bool rd, bool trunc) { VFile* f=vfind(n,false); if (rd && (!f||!f->exists)) return nullptr; if (!f) f=vfind(n,true); f->exists=true; if (trunc) f->len=0; return f; }
extern "C" size_t symx_vlen(VFile* f) { return f->len; }
extern "C" char* symx_vdata(VFile* f) { return f->data; }
extern "C" void symx_vwrite(VFile* f, size_t pos, const char* p, size_t n) { vput(f,pos,p,n); }
extern "C" int remove(const char* n) { VFile* f=vfind(n,false); if (!f||!f->exists) return -1; f->exists=false; f->len=0; return 0; }
extern "C" int unlink(const char* n) { return remove(n); }
extern "C" int rename(const char* a, const char* b) { VFile* f=vfind(a,false); if (!f||!f->exists) return -1; VFile* g=vfind(b,true); g->len=0; vput(g,0,f->data?f->data:"",f->len); g->exists=true; f->exists=false; f->len=0; return 0; }
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() {}
bool __basic_file<char>::is_open() const throw() { return _M_cfile!=nullptr; }
template<> basic_filebuf<char>::basic_filebuf() : __streambuf_type(), _M_lock(), _M_file(&_M_lock), _M_mode(ios_base::openmode(0)), _M_state_beg(), _M_state_cur(), _M_state_last(), _M_buf(nullptr), _M_buf_size(0), _M_buf_allocated(false), _M_reading(false), _M_writing(false), _M_pback(), _M_pback_cur_save(0), _M_pback_end_save(0), _M_pback_init(false), _M_codecvt(0), _M_ext_buf(0), _M_ext_buf_size(0), _M_ext_next(0), _M_ext_end(0) {}
#define VF ((VFile*)_M_file._M_cfile)
template<> basic_filebuf<char>* basic_filebuf<char>::open(const char* n, ios_base::openmode m) {
    if (is_open()) return nullptr;
    bool in=m&ios_base::in, out=m&ios_base::out, app=m&ios_base::app, tr=m&ios_base::trunc;
    VFile* f=vfind(n,false);
    if ((!f||!f->exists) && !(app || (out&&!in) || (out&&in&&tr))) return nullptr;
    if (!f) f=vfind(n,true);
    f->exists=true;
    if (tr || (out&&!in&&!app)) f->len=0;
    _M_file._M_cfile=(FILE*)f; _M_mode=m; _M_buf_size=0;
    if (m&ios_base::ate) _M_buf_size=f->len;
    setg(nullptr,nullptr,nullptr); setp(nullptr,nullptr);
    return this; }
template<> basic_filebuf<char>* basic_filebuf<char>::close() { if (!is_open()) return nullptr; delete[] _M_buf; _M_buf=nullptr; _M_file._M_cfile=nullptr; setg(nullptr,nullptr,nullptr); return this; }
template<> streamsize basic_filebuf<char>::showmanyc() { return -1; }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::underflow() {
    if (!is_open() || !(_M_mode&ios_base::in)) return traits_type::eof();
    if (gptr()<egptr()) return traits_type::to_int_type(*gptr());
    if (_M_buf_size>=VF->len) return traits_type::eof();
    size_t n=VF->len-_M_buf_size; delete[] _M_buf; _M_buf=new char[n]; memcpy(_M_buf,VF->data+_M_buf_size,n); _M_buf_size+=n; setg(_M_buf,_M_buf,_M_buf+n);
    return traits_type::to_int_type(*gptr()); }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::pbackfail(int_type) { return traits_type::eof(); }
template<> streamsize basic_filebuf<char>::xsputn(const char* p, streamsize n) { if (!is_open() || !(_M_mode&(ios_base::out|ios_base::app))) return 0; size_t pos=(_M_mode&ios_base::app)?VF->len:_M_buf_size; vput(VF,pos,p,(size_t)n); _M_buf_size=pos+n; return n; }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::overflow(int_type c) { if (traits_type::eq_int_type(c,traits_type::eof())) return traits_type::not_eof(c); char ch=(char)c; return xsputn(&ch,1)==1?c:traits_type::eof(); }
template<> streamsize basic_filebuf<char>::xsgetn(char* p, streamsize n) { streamsize k=0; while (k<n) { if (traits_type::eq_int_type(underflow(),traits_type::eof())) break; p[k++]=*gptr(); gbump(1); } return k; }
template<> basic_streambuf<char>* basic_filebuf<char>::setbuf(char*, streamsize) { return this; }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) { if (!is_open()) return pos_type(off_type(-1)); size_t cur=_M_buf_size-(egptr()-gptr()); off_type b = d==ios_base::beg?0: d==ios_base::cur?(off_type)cur:(off_type)VF->len; b+=o; if (b<0) return pos_type(off_type(-1)); setg(nullptr,nullptr,nullptr); _M_buf_size=(size_t)b; return pos_type(b); }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos(pos_type p, ios_base::openmode m) { return seekoff(off_type(p),ios_base::beg,m); }
template<> int basic_filebuf<char>::sync() { return 0; }
template<> void basic_filebuf<char>::imbue(const locale&) {}
template<> istream& getline(istream& in, string& str, char delim) {
    streamsize n=0; ios_base::iostate err=ios_base::goodbit; istream::sentry ok(in,true);
    if (ok) try {
        str.erase(); auto* sb=in.rdbuf(); int c=sb->sgetc();
        while (c!=char_traits<char>::eof() && c!=(int)(unsigned char)delim) { str+=(char)c; ++n; c=sb->snextc(); }
        if (c==char_traits<char>::eof()) err|=ios_base::eofbit; else { ++n; sb->sbumpc(); }
    } catch (...) { in._M_setstate(ios_base::badbit); }
    if (!n) err|=ios_base::failbit;
    if (err) in.setstate(err);
    return in; }
template<> istream& operator>>(istream& in, string& str) {
    streamsize n=0; ios_base::iostate err=ios_base::goodbit; istream::sentry ok(in,false);
    if (ok) try { str.erase(); streamsize w=in.width(); streamsize lim=w>0?w:0x7fffffff; auto* sb=in.rdbuf(); int c=sb->sgetc();
        while (n<lim && c!=char_traits<char>::eof() && !isspace(c)) { str+=(char)c; ++n; c=sb->snextc(); }
        if (c==char_traits<char>::eof()) err|=ios_base::eofbit; in.width(0); } catch (...) { in._M_setstate(ios_base::badbit); }
    if (!n) err|=ios_base::failbit;
    if (err) in.setstate(err);
    return in; }
template<> istream& istream::getline(char* s, streamsize n, char delim) {
    _M_gcount=0; ios_base::iostate err=ios_base::goodbit; sentry ok(*this,true);
    if (ok) try { auto* sb=rdbuf(); int c=sb->sgetc();
        while (_M_gcount+1<n && c!=traits_type::eof() && c!=(int)(unsigned char)delim) { *s++=(char)c; ++_M_gcount; c=sb->snextc(); }
        if (c==traits_type::eof()) err|=ios_base::eofbit; else if (c==(int)(unsigned char)delim) { ++_M_gcount; sb->sbumpc(); } else err|=ios_base::failbit; } catch (...) { _M_setstate(ios_base::badbit); }
    if (n>0) *s=0;
    if (!_M_gcount) err|=ios_base::failbit;
    if (err) setstate(err);
    return *this; }
template<> istream& istream::ignore(streamsize n, int_type d) {
    _M_gcount=0; sentry ok(*this,true); ios_base::iostate err=ios_base::goodbit;
    if (ok) try { auto* sb=rdbuf(); while (n==numeric_limits<streamsize>::max() || _M_gcount<n) { int c=sb->sbumpc(); if (c==traits_type::eof()) { err|=ios_base::eofbit; break; } ++_M_gcount; if (c==d) break; } } catch (...) { _M_setstate(ios_base::badbit); }
    if (err) setstate(err);
    return *this; }
template<> istream& istream::ignore(streamsize n) { return ignore(n,traits_type::eof()); }
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) { streamsize r=0; eof=true; int c=in->sgetc(); while (c!=char_traits<char>::eof()) { if (out->sputc((char)c)==char_traits<char>::eof()) { eof=false; break; } ++r; c=in->snextc(); } return r; }
void ios_base::_M_move(ios_base& o) noexcept { _M_precision=o._M_precision; _M_width=o._M_width; _M_flags=o._M_flags; _M_exception=o._M_exception; _M_streambuf_state=o._M_streambuf_state; for (int i=0;i<_S_local_word_size;++i) _M_local_word[i]=o._M_local_word[i]; }
void ios_base::_M_swap(ios_base& o) noexcept { std::swap(_M_precision,o._M_precision); std::swap(_M_width,o._M_width); std::swap(_M_flags,o._M_flags); std::swap(_M_exception,o._M_exception); std::swap(_M_streambuf_state,o._M_streambuf_state); }
template class basic_streambuf<char>; template class basic_stringbuf<char>; template class basic_ios<char>;
template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class basic_istringstream<char>; template class basic_ostringstream<char>; template class basic_stringstream<char>;
template class basic_ifstream<char>; template class basic_ofstream<char>; template class basic_fstream<char>;
template ostream& endl(ostream&); template ostream& ends(ostream&); template ostream& flush(ostream&); template istream& ws(istream&);
template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, unsigned char); template ostream& operator<<(ostream&, signed char); template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, const unsigned char*); template ostream& operator<<(ostream&, const signed char*);
template ostream& operator<<(ostream&, const string&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template istream& operator>>(istream&, char&);
template istream& getline(istream&, string&);
// std::cout / cin / cerr
struct NullBuf : basic_streambuf<char> { int_type overflow(int_type c) override { return traits_type::not_eof(c); } streamsize xsputn(const char*, streamsize n) override { return n; } };
alignas(16) static char nullbuf[sizeof(NullBuf)];
alignas(16) char coutStore[sizeof(ostream)] asm("_ZSt4cout"); alignas(16) char cerrStore[sizeof(ostream)] asm("_ZSt4cerr"); alignas(16) char clogStore[sizeof(ostream)] asm("_ZSt4clog"); alignas(16) char cinStore[sizeof(istream)] asm("_ZSt3cin");
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void symx_iosinit() asm("_ZSt21ios_base_library_initv"); void symx_iosinit() {}
__attribute__((constructor(101))) static void rtInit() {
    new (ctypeStore) ctype<char>(nullptr,false,1);
    facetArr[0]=(const locale::facet*)(ctype<char>*)ctypeStore;
    ImplView* v=(ImplView*)implStore; v->refs=1000; v->facets=facetArr; v->n=8;
    locale::_S_classic=locale::_S_global=(locale::_Impl*)implStore;
    new (classicStore) locale();
    auto* nb=new (nullbuf) NullBuf; new (coutStore) ostream(nb); new (cerrStore) ostream(nb); new (clogStore) ostream(nb); new (cinStore) istream(nb);
}
}
// ---------------------------------------------------------------- containers' out-of-line parts
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; } else { auto* y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) return x->_M_right; if (x->_M_left) { auto* y=x->_M_left; while (y->_M_right) y=y->_M_right; return y; } auto* y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced insertion / erasure: same observable order as the library's red-black tree
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent=p; x->_M_left=nullptr; x->_M_right=nullptr; x->_M_color=_S_black;
    if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; } else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
    h._M_color=_S_red; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl=[&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (u==h._M_parent) h._M_parent=v; else if (u->_M_parent->_M_left==u) u->_M_parent->_M_left=v; else u->_M_parent->_M_right=v; if (v) v->_M_parent=u->_M_parent; };
    auto* nl = h._M_left==z ? _Rb_tree_increment(z) : h._M_left; auto* nr = h._M_right==z ? nullptr : h._M_right;
    if (!nr) { auto* q=h._M_parent; if (h._M_left==h._M_right) nr=&h; else { if (z->_M_left) { q=z->_M_left; while (q->_M_right) q=q->_M_right; } else q=z->_M_parent; nr=q; } }
    if (!z->_M_left) repl(z,z->_M_right); else if (!z->_M_right) repl(z,z->_M_left);
    else { auto* y=z->_M_right; while (y->_M_left) y=y->_M_left; if (y->_M_parent!=z) { repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
    if (!h._M_parent) { h._M_left=h._M_right=&h; } else { h._M_left=nl; h._M_right=nr; }
    return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { auto* t=this; do { auto* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while (t!=this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next!=&x) { if (y._M_next!=&y) { std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if (y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b=n<11?11:n|1; _M_next_resize=b; return b; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t el, size_t ins) const { if (el+ins>_M_next_resize || _M_next_resize==0) { size_t want=el+ins; size_t n=bkt; while (n<want || n==1) n=n*2+1; if (n<13) n=13; if (n<=bkt) { _M_next_resize=bkt; return {false,0}; } _M_next_resize=n; return {true,n}; } return {false,0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* s=(const unsigned char*)p; size_t h=seed; for (size_t i=0;i<n;++i) h=h*31+s[i]; return symx_concretize(h); }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p,n,seed); }
// ---------------------------------------------------------------- threads
thread::_State::~_State() {}
static void* thrTramp(void* p) { unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); s.reset(); return nullptr; }
void thread::_M_start_thread(_State_ptr s, void(*)()) { pthread_t t; if (pthread_create(&t,nullptr,thrTramp,s.release())) __throw_system_error(11); _M_id=id(t); }
void thread::join() { if (!joinable()) __throw_system_error(22); pthread_join(_M_id._M_thread,nullptr); _M_id=id(); }
void thread::detach() { _M_id=id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { sched_yield(); } }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(),l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
static pthread_mutex_t spMutex=PTHREAD_MUTEX_INITIALIZER;
_Sp_locker::_Sp_locker(const void*) noexcept { pthread_mutex_lock(&spMutex); _M_key1=_M_key2=0; }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept { pthread_mutex_lock(&spMutex); _M_key1=_M_key2=0; }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&spMutex); }
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { fakeClock+=1000; return time_point(duration((long)fakeClock)); } steady_clock::time_point steady_clock::now() noexcept { fakeClock+=1000; return time_point(duration((long)fakeClock)); } } }
}
