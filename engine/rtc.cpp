// libc functions used by the code under test and by libstdc++ headers (no libc headers included: clean prototypes)
#include "symx.h"
// ---------------------------------------------------------------- libc
extern "C" {
void* malloc(size_t); void free(void*); void* memcpy(void*,const void*,size_t); void* memset(void*,int,size_t); int memcmp(const void*,const void*,size_t);
typedef long time_t; struct timespec { long tv_sec, tv_nsec; }; typedef int clockid_t; typedef void FILE;
#define ERANGE 34
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
static int errno_store[8];
int* __errno_location() { return &errno_store[symx_tid()&7]; }
size_t strlen(const char* s) { size_t n=0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n=0; while (n<m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { for (size_t i=0;;++i) { unsigned char x=a[i], y=b[i]; if (x!=y) return x<y?-1:1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i=0;i<n;++i) { unsigned char x=a[i], y=b[i]; if (x!=y) return x<y?-1:1; if (!x) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;;++s) { if (*s==(char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r=nullptr; for (;;++s) { if (*s==(char)c) r=s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t m=strlen(n); for (;;++h) { size_t i=0; while (i<m && h[i] && h[i]==n[i]) ++i; if (i==m) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) { size_t i=0; for (;;++i) { d[i]=s[i]; if (!s[i]) return d; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i=0; for (;i<n && s[i];++i) d[i]=s[i]; for (;i<n;++i) d[i]=0; return d; }
char* strcat(char* d, const char* s) { strcpy(d+strlen(d),s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e=d+strlen(d); size_t i=0; for (;i<n && s[i];++i) e[i]=s[i]; e[i]=0; return d; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s=(const unsigned char*)p; while (n) if (s[--n]==(unsigned char)c) return (void*)(s+n); return nullptr; }
void* memmem(const void* h, size_t n, const void* q, size_t m) { const char* a=(const char*)h; for (size_t i=0;i+m<=n;++i) if (memcmp(a+i,q,m)==0) return (void*)(a+i); return nullptr; }
int tolower(int); size_t strcspn(const char*, const char*);
int strcasecmp(const char* a, const char* b) { for (;;++a,++b) { int x=tolower((unsigned char)*a), y=tolower((unsigned char)*b); if (x!=y) return x-y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (;n;++a,++b,--n) { int x=tolower((unsigned char)*a), y=tolower((unsigned char)*b); if (x!=y) return x-y; if (!x) return 0; } return 0; }
char* strtok_r(char* s, const char* d, char** st) { size_t strspn(const char*, const char*); if (!s) s=*st; s+=strspn(s,d); if (!*s) { *st=s; return nullptr; } char* e=s+strcspn(s,d); if (*e) *e++=0; *st=e; return s; }
char* strtok(char* s, const char* d) { static char* st; return strtok_r(s,d,&st); }
char* strerror(int e) { static char b[]="Error"; return b; }
static uint64_t randState=1; // some deterministic generator: natively the numbers differ, so no claim may depend on them
int rand() { randState=randState*6364136223846793005ull+1442695040888963407ull; return (int)(randState>>33); }
void srand(unsigned s) { randState=s; }
int abs(int x) { return x<0?-x:x; } long labs(long x) { return x<0?-x:x; }
long strtol(const char*, char**, int); long atol(const char* s) { return strtol(s,nullptr,10); } long long atoll(const char* s) { return strtol(s,nullptr,10); }
char* strpbrk(const char* s, const char* a) { for (;*s;++s) if (strchr(a,*s)) return (char*)s; return nullptr; }
size_t strspn(const char* s, const char* a) { size_t n=0; while (s[n] && strchr(a,s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n=0; while (s[n] && !strchr(a,s[n])) ++n; return n; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s=(const unsigned char*)p; for (size_t i=0;i<n;++i) if (s[i]==(unsigned char)c) return (void*)(s+i); return nullptr; }
char* strdup(const char* s) { size_t n=strlen(s)+1; char* p=(char*)malloc(n); memcpy(p,s,n); return p; }
int isspace(int c) { return (c==32) | ((unsigned)c-9u<5u); }
int isdigit(int c) { return (unsigned)c-'0'<10u; }
int isupper(int c) { return (unsigned)c-'A'<26u; }
int islower(int c) { return (unsigned)c-'a'<26u; }
int isalpha(int c) { return ((unsigned)c|32u)-'a'<26u; }
int isalnum(int c) { return isalpha(c)|isdigit(c); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c|32u)-'a'<6u); }
int isprint(int c) { return (unsigned)c-32u<95u; }
int isgraph(int c) { return (unsigned)c-33u<94u; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { return ((unsigned)c<32u) | (c==127); }
int isblank(int c) { return (c==32)|(c==9); }
int tolower(int c) { return c + (isupper(c)<<5); }
int toupper(int c) { return c - (islower(c)<<5); }
static int digval(int c) { if (isdigit(c)) return c-'0'; if (isalpha(c)) return (c|32)-'a'+10; return 99; }
static unsigned long long strtoull_(const char* s, char** e, int base, bool& neg, bool& over, bool& any) {
    const char* p=s; while (isspace((unsigned char)*p)) ++p;
    neg=false; if (*p=='+'||*p=='-') { neg=*p=='-'; ++p; }
    if ((base==0||base==16) && p[0]=='0' && (p[1]|32)=='x' && digval((unsigned char)p[2])<16) { p+=2; base=16; }
    if (base==0) base = *p=='0'?8:10;
    unsigned long long v=0; over=false; any=false;
    for (;;++p) { int d=digval((unsigned char)*p); if (d>=base) break; any=true; unsigned long long t; if (__builtin_mul_overflow(v,(unsigned long long)base,&t) || __builtin_add_overflow(t,(unsigned long long)d,&v)) over=true; }
    if (e) *e=(char*)(any?p:s);
    return v;
}
unsigned long strtoul(const char* s, char** e, int b) { bool n,o,a; unsigned long long v=strtoull_(s,e,b,n,o,a); if (o) { *__errno_location()=ERANGE; return ~0ul; } return n?-v:v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s,e,b); }
long strtol(const char* s, char** e, int b) { bool n,o,a; unsigned long long v=strtoull_(s,e,b,n,o,a); if (n) { if (o || v>(1ull<<63)) { *__errno_location()=ERANGE; return (long)(1ull<<63); } return (long)(0-v); } if (o || v>>63) { *__errno_location()=ERANGE; return 0x7fffffffffffffffl; } return (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s,e,b); }
int atoi(const char* s) { return (int)strtol(s,nullptr,10); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s,e,b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s,e,b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s,e,b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s,e,b); }
// Floating point: the textual syntax is parsed exactly (C grammar: decimal, inf, nan; hexadecimal unsupported),
// the value is an opaque input chosen by the solver (range errors too): what the callers do with it is decided for every value.
static size_t fpSyntax(const char* s, const char** begin) {
    const char* p=s; while (isspace((unsigned char)*p)) ++p;
    const char* q=p; if (*q=='+'||*q=='-') ++q;
    auto word=[](const char* x, const char* w) { size_t n=0; while (w[n]) { if (((unsigned char)x[n]|32)!=(unsigned char)w[n]) return (size_t)0; ++n; } return n; };
    if (((*q|32)=='i') ) { if (size_t n=word(q,"infinity")) return q+n-s; if (size_t n=word(q,"inf")) return q+n-s; return 0; }
    if (((*q|32)=='n') ) { if (size_t n=word(q,"nan")) { if (q[n]=='(') { const char* r=q+n+1; while (isalnum((unsigned char)*r)||*r=='_') ++r; if (*r==')') return r+1-s; } return q+n-s; } return 0; }
    if (q[0]=='0' && (q[1]|32)=='x') { const char* r=q+2; bool any=false; while (isxdigit((unsigned char)*r)) { ++r; any=true; } if (*r=='.') { ++r; while (isxdigit((unsigned char)*r)) { ++r; any=true; } } if (!any) return q+1-s; if ((*r|32)=='p') { const char* t=r+1; if (*t=='+'||*t=='-') ++t; if (isdigit((unsigned char)*t)) { while (isdigit((unsigned char)*t)) ++t; r=t; } } return r-s; }
    bool any=false; while (isdigit((unsigned char)*q)) { ++q; any=true; }
    if (*q=='.') { const char* r=q+1; bool a2=false; while (isdigit((unsigned char)*r)) { ++r; a2=true; } if (any||a2) { q=r; any=true; } }
    if (!any) return 0;
    if ((*q|32)=='e') { const char* t=q+1; if (*t=='+'||*t=='-') ++t; if (isdigit((unsigned char)*t)) { while (isdigit((unsigned char)*t)) ++t; q=t; } }
    return q-s;
}
// Concrete text: the host's conversion. Symbolic text: exact syntax; the value is an opaque input (the same for the same text); texts whose
// range could matter (an exponent, or 38 characters and more) are enumerated.
void __symx_unsupported(const char*);
int symx_host_strto(const char* s, int kind, void* out); int symx_host_fmt(double, int, int, char*);
struct FpMemo { char buf[96]; size_t n; uint64_t v; }; static FpMemo fpMemo[3];
static bool fpVal(const char* s, char** e, int kind, void* out) {
    size_t len=strlen(s); bool sym=false; for (size_t i=0;i<len;++i) if (symx_is_symbolic((unsigned char)s[i])) sym=true;
    if (!sym) { int r=symx_host_strto(s,kind,out); if (e) *e=(char*)s+(r&0xffff); if (r>>16) *__errno_location()=ERANGE; return true; }
    const char* b; size_t n=fpSyntax(s,&b); if (e) *e=(char*)s+n; if (!n) return false;
    bool ex=n>=38; if (n>=4) for (size_t i=0;i<n;++i) { int c=(unsigned char)s[i]|32; if ((c=='e')|(c=='p')) ex=true; }
    if (ex) { // the range depends on the digits: enumerate the texts, convert each by the host
        char tmp[128]; if (n>=sizeof tmp) __symx_unsupported("long number text"); for (size_t i=0;i<n;++i) tmp[i]=(char)symx_concretize((unsigned char)s[i]); tmp[n]=0;
        int r=symx_host_strto(tmp,kind,out); if (r>>16) *__errno_location()=ERANGE; return true; }
    FpMemo& m=fpMemo[kind];
    if (!(m.n==n && memcmp(m.buf,s,n)==0)) {
        m.v=symx_u64(kind==0?"strtof":kind==1?"strtod":"strtold",kind==0?32:64);
        if (n<sizeof m.buf) { m.n=n; memcpy(m.buf,s,n); }
    }
    memset(out,0,kind==0?4:kind==1?8:16); memcpy(out,&m.v,kind==0?4:8); return true;
}
double strtod(const char* s, char** e) { double d; return fpVal(s,e,1,&d)?d:0; }
float strtof(const char* s, char** e) { float d; return fpVal(s,e,0,&d)?d:0; }
long double strtold(const char* s, char** e) { long double d; return fpVal(s,e,2,&d)?d:0; }
char* getenv(const char*) { return nullptr; }
__attribute__((weak)) int isatty(int) { return 0; }
struct _IO_FILE; _IO_FILE* stdout_p; 
int __cxa_atexit(void(*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit(void(*)(void*), void*, void*) { return 0; }
int atexit(void(*)()) { return 0; }
int __cxa_guard_acquire(uint64_t* g) { return !__atomic_fetch_or((unsigned char*)g,0,__ATOMIC_ACQ_REL); } // read-modify-write: not a scheduling point, as natively
void __cxa_guard_release(uint64_t* g) { __atomic_fetch_or((unsigned char*)g,1,__ATOMIC_ACQ_REL); }
void __cxa_guard_abort(uint64_t*) {}
uint64_t fakeClock=1000000000ull;
int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec=(time_t)(fakeClock/1000000000ull); t->tv_nsec=(long)(fakeClock%1000000000ull); return 0; }
time_t time(time_t* t) { if (t) *t=1; return 1; }
int puts(const char*) { return 0; }
int dup(int f) { static int n=100; return f<0?-1:++n; }
int fileno(FILE* f) { return f==(void*)8?0: f==(void*)16?1:2; }
int fflush(void*) { return 0; }
// formatted output: integers, characters and strings (symbolic contents allowed; the number of digits forks), no floating point
typedef __builtin_va_list va_list;
void __symx_unsupported(const char*);
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
    size_t n=0; auto put=[&](char c) { if (n+1<cap) out[n]=c; ++n; };
    for (;*f;++f) {
        if (*f!='%') { put(*f); continue; }
        ++f; bool left=false, zero=false, plus=false, space=false, alt=false;
        for (;;++f) { if (*f=='-') left=true; else if (*f=='0') zero=true; else if (*f=='+') plus=true; else if (*f==' ') space=true; else if (*f=='#') alt=true; else break; }
        int width=0, prec=-1; if (*f=='*') { width=__builtin_va_arg(ap,int); ++f; if (width<0) { left=true; width=-width; } } else while (isdigit((unsigned char)*f)) width=width*10+(*f++-'0');
        if (*f=='.') { ++f; prec=0; if (*f=='*') { prec=__builtin_va_arg(ap,int); ++f; } else while (isdigit((unsigned char)*f)) prec=prec*10+(*f++-'0'); }
        int sz=4; for (;;++f) { if (*f=='h') sz=sz==2?1:2; else if (*f=='l'||*f=='z'||*f=='t'||*f=='j') sz=8; else break; }
        char buf[72], fbuf[400]; const char* s=buf; size_t len=0; char pre[3]; int np=0; bool num=false;
        switch (*f) {
            case '%': put('%'); continue;
            case 'c': buf[0]=(char)__builtin_va_arg(ap,int); len=1; break;
            case 's': s=__builtin_va_arg(ap,const char*); if (!s) s="(null)"; len = prec>=0 ? strnlen(s,(size_t)prec) : strlen(s); prec=-1; break;
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
                unsigned long long v; bool neg=false; unsigned base=10; num=true;
                if (*f=='p') { v=__builtin_va_arg(ap,unsigned long long); base=16; alt=true; }
                else if (*f=='d'||*f=='i') { long long x = sz==8 ? __builtin_va_arg(ap,long long) : (long long)__builtin_va_arg(ap,int); if (sz==2) x=(short)x; if (sz==1) x=(signed char)x; neg=x<0; v=neg?0ull-(unsigned long long)x:(unsigned long long)x; }
                else { v = sz==8 ? __builtin_va_arg(ap,unsigned long long) : (unsigned long long)__builtin_va_arg(ap,unsigned); if (sz==2) v=(unsigned short)v; if (sz==1) v=(unsigned char)v; base = *f=='u'?10:*f=='o'?8:16; }
                if (neg) pre[np++]='-'; else if (plus && (*f=='d'||*f=='i')) pre[np++]='+'; else if (space && (*f=='d'||*f=='i')) pre[np++]=' ';
                if (alt && base==16 && v) { pre[np++]='0'; pre[np++]=*f=='X'?'X':'x'; }
                char* e=buf+sizeof buf; char* q=e; while (v) { unsigned d=(unsigned)(v%base); v/=base; *--q=(char)(d<10?'0'+d:(*f=='X'?'A':'a')+d-10); }
                if (prec<0 && q==e) *--q='0'; if (alt && base==8 && (q==e||*q!='0')) *--q='0'; while (e-q<prec && q>buf) *--q='0';
                s=q; len=(size_t)(e-q); break; }
            case 'g': case 'f': case 'e': case 'G': case 'E': case 'F': { double v=__builtin_va_arg(ap,double); uint64_t bits; memcpy(&bits,&v,8); if (symx_is_symbolic(bits)||zero||space||alt) __symx_unsupported("formatted output of this double");
                len=(size_t)symx_host_fmt(v,*f|(plus?256:0),prec<0?6:prec,fbuf); s=fbuf; break; }
            default: __symx_unsupported("formatted output of this conversion");
        }
        size_t pad = width>(int)(len+np) ? width-len-np : 0; bool z=zero && !left && num && prec<0;
        if (!left && !z) while (pad) { put(' '); --pad; }
        for (int i=0;i<np;++i) put(pre[i]); if (z) while (pad) { put('0'); --pad; }
        for (size_t i=0;i<len;++i) put(s[i]); while (pad) { put(' '); --pad; }
    }
    if (cap) out[n<cap?n:cap-1]=0;
    return (int)n;
}
// formatted input: integers, words, characters; no floating point, no scan sets
int vsscanf(const char* s, const char* f, va_list ap) {
    const char* b=s; int done=0;
    for (;*f;++f) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) ++s; continue; }
        if (*f!='%') { if (*s!=*f) return !*s&&!done?-1:done; ++s; continue; }
        ++f; if (*f=='%') { while (isspace((unsigned char)*s)) ++s; if (*s!='%') return done; ++s; continue; }
        bool skip=false; if (*f=='*') { skip=true; ++f; } int w=0; while (isdigit((unsigned char)*f)) w=w*10+(*f++-'0');
        int sz=4; for (;;++f) { if (*f=='h') sz=sz==2?1:2; else if (*f=='l'||*f=='z'||*f=='t'||*f=='j') sz=8; else break; }
        if (*f=='n') { if (!skip) *__builtin_va_arg(ap,int*)=(int)(s-b); continue; }
        if (*f!='c') while (isspace((unsigned char)*s)) ++s;
        if (!*s) return done?done:-1;
        if (*f=='c') { if (!w) w=1; char* d=skip?nullptr:__builtin_va_arg(ap,char*); for (int i=0;i<w;++i) { if (!*s) return done?done:-1; if (d) *d++=*s; ++s; } }
        else if (*f=='s') { char* d=skip?nullptr:__builtin_va_arg(ap,char*); int i=0; while (*s && !isspace((unsigned char)*s) && (!w||i<w)) { if (d) *d++=*s; ++s; ++i; } if (d) *d=0; }
        else if (*f=='d'||*f=='i'||*f=='u'||*f=='x'||*f=='X'||*f=='o') {
            int base=*f=='i'?0:*f=='o'?8:*f=='x'||*f=='X'?16:10; char tmp[64]; const char* src=s; if (w) { int i=0; while (i<w && i<63 && s[i]) { tmp[i]=s[i]; ++i; } tmp[i]=0; src=tmp; }
            char* e; long v=*f=='d'||*f=='i'?strtol(src,&e,base):(long)strtoul(src,&e,base); if (e==src) return done; s+=e-src;
            if (!skip) { if (sz==8) *__builtin_va_arg(ap,long*)=v; else if (sz==4) *__builtin_va_arg(ap,int*)=(int)v; else if (sz==2) *__builtin_va_arg(ap,short*)=(short)v; else *__builtin_va_arg(ap,char*)=(char)v; } }
        else __symx_unsupported("formatted input of this conversion");
        if (!skip) ++done;
    }
    return done;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; __builtin_va_start(ap,f); int r=vsscanf(s,f,ap); __builtin_va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; __builtin_va_start(ap,f); int r=vsscanf(s,f,ap); __builtin_va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; __builtin_va_start(ap,f); int r=vsscanf(s,f,ap); __builtin_va_end(ap); return r; }
int snprintf(char* out, size_t cap, const char* f, ...) { va_list ap; __builtin_va_start(ap,f); int r=vsnprintf(out,cap,f,ap); __builtin_va_end(ap); return r; }
int sprintf(char* out, const char* f, ...) { va_list ap; __builtin_va_start(ap,f); int r=vsnprintf(out,~(size_t)0>>1,f,ap); __builtin_va_end(ap); return r; }
int vsprintf(char* out, const char* f, va_list ap) { return vsnprintf(out,~(size_t)0>>1,f,ap); }
double strtod(const char*, char**); double atof(const char* s) { return strtod(s,nullptr); }
// reader/writer locks: one exclusive lock (fewer interleavings of readers); timed locks wait as long as it takes
int pthread_mutex_lock(void*); int pthread_mutex_trylock(void*); int pthread_mutex_unlock(void*);
int pthread_mutex_clocklock(void* m, clockid_t, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_timedlock(void* m, const timespec*) { return pthread_mutex_lock(m); }
int pthread_rwlock_init(void*, const void*) { return 0; } int pthread_rwlock_destroy(void*) { return 0; }
int pthread_rwlock_rdlock(void* l) { return pthread_mutex_lock(l); } int pthread_rwlock_wrlock(void* l) { return pthread_mutex_lock(l); } int pthread_rwlock_unlock(void* l) { return pthread_mutex_unlock(l); }
int pthread_rwlock_tryrdlock(void* l) { return pthread_mutex_trylock(l); } int pthread_rwlock_trywrlock(void* l) { return pthread_mutex_trylock(l); }
// once: like the initialisation of a static variable
int pthread_once(int* o, void (*f)()) { if (__atomic_fetch_or((unsigned char*)o,0,__ATOMIC_ACQ_REL)) return 0; f(); __atomic_fetch_or((unsigned char*)o,2,__ATOMIC_ACQ_REL); return 0; }
// C streams over the in-memory files (rt.cpp)
struct VFile; VFile* symx_vopen(const char*, bool read, bool trunc); size_t symx_vlen(VFile*); char* symx_vdata(VFile*); void symx_vwrite(VFile*, size_t, const char*, size_t);
struct CStream { VFile* f; size_t pos; bool rd, wr, app, eof; };
FILE* fopen(const char* n, const char* m) {
    bool plus=strchr(m,'+'), r=*m=='r', w=*m=='w', a=*m=='a'; VFile* f=symx_vopen(n,r,w); if (!f) { *__errno_location()=2; return nullptr; }
    CStream* c=(CStream*)malloc(sizeof(CStream)); c->f=f; c->pos=0; c->rd=r||plus; c->wr=w||a||plus; c->app=a; c->eof=false; return (FILE*)c; }
static CStream* cs(FILE* f) { return (unsigned long)f<=24 ? nullptr : (CStream*)f; }
int fclose(FILE* f) { if (cs(f)) free(f); return 0; }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { CStream* c=cs(f); if (!c) return n; if (!c->wr) return 0; if (c->app) c->pos=symx_vlen(c->f); symx_vwrite(c->f,c->pos,(const char*)p,s*n); c->pos+=s*n; return n; }
int fputc(int ch, FILE* f) { char c=(char)ch; return fwrite(&c,1,1,f)==1?(unsigned char)c:-1; }
int putc(int ch, FILE* f) { return fputc(ch,f); }
int fputs(const char* s, FILE* f) { size_t n=strlen(s); return fwrite(s,1,n,f)==n?1:-1; }
int fgetc(FILE* f) { CStream* c=cs(f); if (!c||!c->rd) return -1; if (c->pos>=symx_vlen(c->f)) { c->eof=true; return -1; } return (unsigned char)symx_vdata(c->f)[c->pos++]; }
int getc(FILE* f) { return fgetc(f); }
int ungetc(int ch, FILE* f) { CStream* c=cs(f); if (!c||!c->pos) return -1; --c->pos; c->eof=false; return ch; }
size_t fread(void* p, size_t s, size_t n, FILE* f) { size_t k=0; for (;k<s*n;++k) { int ch=fgetc(f); if (ch<0) break; ((char*)p)[k]=(char)ch; } return s?k/s:0; }
char* fgets(char* b, int n, FILE* f) { int k=0; while (k<n-1) { int ch=fgetc(f); if (ch<0) break; b[k++]=(char)ch; if (ch=='\n') break; } if (!k) return nullptr; b[k]=0; return b; }
long getline(char** l, size_t* cap, FILE* f) { size_t k=0; for (;;) { int ch=fgetc(f); if (ch<0) break; if (k+2>*cap || !*l) { size_t nc=(*cap+k+2)*2; char* d=(char*)malloc(nc); if (k) memcpy(d,*l,k); free(*l); *l=d; *cap=nc; } (*l)[k++]=(char)ch; if (ch=='\n') break; } if (!k) return -1; (*l)[k]=0; return (long)k; }
int feof(FILE* f) { CStream* c=cs(f); return c?c->eof:0; }
int ferror(FILE*) { return 0; }
int fseek(FILE* f, long o, int w) { CStream* c=cs(f); if (!c) return -1; c->pos=(size_t)(w==0?o:w==1?(long)c->pos+o:(long)symx_vlen(c->f)+o); c->eof=false; return 0; }
long ftell(FILE* f) { CStream* c=cs(f); return c?(long)c->pos:-1; }
void rewind(FILE* f) { fseek(f,0,0); }
int vfprintf(FILE* f, const char* m, va_list ap) { char b[4096]; int n=vsnprintf(b,sizeof b,m,ap); if (n>=(int)sizeof b) __symx_unsupported("long formatted output"); fwrite(b,1,(size_t)n,f); return n; }
int fprintf(FILE* f, const char* m, ...) { va_list ap; __builtin_va_start(ap,m); int r=vfprintf(f,m,ap); __builtin_va_end(ap); return r; }
int printf(const char* m, ...) { return 0; }
int putchar(int c) { return c; }
int access(const char* n, int) { VFile* f=symx_vopen(n,true,false); return f?0:-1; }
}
alignas(8) void* symx_stdin asm("stdin") = (void*)8;
alignas(8) void* symx_stdout asm("stdout") = (void*)16;
alignas(8) void* symx_stderr asm("stderr") = (void*)24;
