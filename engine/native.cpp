// Native side of the harness API: inputs come from a file, results go to a file.
#include "symx.h"
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <exception>
static std::map<std::string,uint64_t>* ins; static std::map<std::string,int>* cnt; static std::string* obs; static std::vector<std::string>* reached; static const char* outPath; 
static bool finished=false;
static void writeOut(const char* status, const char* msg) {
    if (finished) return; finished=true;
    FILE* f=fopen(outPath,"w"); if (!f) return;
    fprintf(f,"%s %s\n",status,msg); fprintf(f,"OBS %s\n",obs->c_str()); for (auto& r : *reached) fprintf(f,"REACH %s\n",r.c_str());
    fclose(f);
}
static uint64_t get(const char* n) { std::string k=std::string(n); for (char& c : k) if (c==' ') c='_'; k+="#"+std::to_string((*cnt)[n]++); auto it=ins->find(k); return it==ins->end()?0:it->second; }
extern "C" {
uint64_t symx_u64(const char* n, unsigned bits) { uint64_t v=get(n); return bits>=64?v:v&((1ull<<bits)-1); }
void symx_buf(void* p, size_t n, const char* nm) { for (size_t i=0;i<n;++i) ((unsigned char*)p)[i]=(unsigned char)get(nm); }
int symx_choice(const char* n, int m) { int v=(int)get(n); return v<m?v:0; }
void symx_assume(uint64_t c) { if (!c) { writeOut("ASSUME","assumption violated"); _exit(43); } }
void symx_assert(uint64_t c, const char* m) { if (!c) { writeOut("FAIL",m); _exit(42); } }
void symx_assert_mem(const void* a, const void* b, size_t n, const char* m) { symx_assert(n==0 || memcmp(a,b,n)==0,m); }
void symx_reach(const char* m) { reached->push_back(m); }
void symx_observe(const void* p, size_t n) { static const char* hx="0123456789abcdef"; for (size_t i=0;i<n;++i) { unsigned b=((const unsigned char*)p)[i]; *obs+=hx[b>>4]; *obs+=hx[b&15]; } }
void symx_observe_u64(uint64_t v) { symx_observe(&v,8); }
int symx_is_engine(void) { return 0; }
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t) { return 0; }
uint64_t symx_ite(uint64_t c, uint64_t a, uint64_t b) { return c?a:b; }
int symx_may(uint64_t c) { return c!=0; }
void symx_prune(void) { writeOut("PRUNE",""); _exit(44); }
__attribute__((weak)) void symx_sync_point(void) {}
__attribute__((weak)) int symx_tid(void) { return 0; }
__attribute__((weak)) int symx_locks_held(void) { return 0; }
void symx_print(const char*) {}
void symx_print_u64(const char*, uint64_t) {}
__attribute__((weak)) void symx_native_init(const char*) {}
void symx_native_fail(const char* m) { writeOut("FAIL",m); _exit(42); }
}
int main(int argc, char** argv) {
    ins=new std::map<std::string,uint64_t>; cnt=new std::map<std::string,int>; obs=new std::string; reached=new std::vector<std::string>;
    if (argc<4) return 2;
    outPath=argv[3];
    FILE* f=fopen(argv[2],"r"); if (!f) return 2;
    char nm[256]; unsigned long long v;
    while (fscanf(f,"%255s %llu",nm,&v)==2) (*ins)[nm]=v;
    fclose(f);
    std::set_terminate([]{ writeOut("TERMINATE","std::terminate called"); _exit(45); });
    void (*fn)()=(void(*)())dlsym(RTLD_DEFAULT,argv[1]);
    if (!fn) { fprintf(stderr,"no entry %s\n",argv[1]); return 2; }
    symx_native_init(argc>4?argv[4]:nullptr);
    fn();
    writeOut("OK","");
    fflush(stdout);
    _exit(0);
}
