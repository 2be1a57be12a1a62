// C12: history storages.
#include "hcommon.h"
#include <memory>
#include <cli/volatilehistorystorage.h>
#include <cli/filehistorystorage.h>
using namespace cli;
#ifndef OPS
#define OPS 3
#endif
#ifndef BATCH
#define BATCH 3
#endif
typedef std::vector<std::string> V;
static void expectAll(const V& got, const V& want, const char* msg) { symx_observe_u64(got.size()); for (auto& g : got) observe(g); symx_assert(got.size()==want.size(),msg); if (got.size()==want.size()) for (size_t i=0;i<got.size();++i) expectEq(got[i],want[i],msg); }
static std::string ln(const char* n) { std::string s=symString(symx_choice("len",2),n); for (char c : s) symx_assume(c!='\n'); return s; }
template <class Make> static void go(Make make) {
    size_t size=symx_concretize(symx_choice("size",4)); std::unique_ptr<HistoryStorage> st=make(size,true); V want;
    expectAll(st->Commands(),want,"a new storage is empty");
    for (int k=0;k<OPS;++k) {
        int op=symx_choice("op",3);
        if (op==0) { V b; int n=symx_choice("n",BATCH+1); for (int i=0;i<n;++i) b.push_back(ln("line")); st->Store(b); for (auto& x : b) want.push_back(x); while (want.size()>size) want.erase(want.begin()); symx_reach("stored"); }
        else if (op==1) { st->Clear(); want.clear(); symx_reach("cleared"); }
        else { auto again=make(size,false); if (!again) symx_prune(); st=std::move(again); symx_reach("reopened"); }
        expectAll(st->Commands(),want,"the most recent stored commands, in order, up to the size");
    }
}
ENTRY(h_volatile) { go([](size_t n, bool fresh) { return fresh?std::unique_ptr<HistoryStorage>(new VolatileHistoryStorage(n)):nullptr; }); }
ENTRY(h_file) { go([](size_t n, bool) { return std::unique_ptr<HistoryStorage>(new FileHistoryStorage("histfile",n)); }); }
ENTRY(h_file_defaults) { // the default size, long lines, two files
    FileHistoryStorage a("fa"), b("fb"); V l{symString(3,"x"),std::string(200,'y'),""}; for (char c : l[0]) symx_assume(c!='\n');
    a.Store(l); b.Store({"other"}); a.Store({"z"}); expectAll(a.Commands(),{l[0],l[1],"","z"},"contents"); expectAll(b.Commands(),{"other"},"another file"); b.Clear(); expectAll(a.Commands(),{l[0],l[1],"","z"},"contents"); expectAll(b.Commands(),{},"cleared"); symx_reach("two files");
}
ENTRY(h_big) { // large storages and batches
    static const int sizes[]={10,100,255,256,1000}; int k=pick("size",6), size=k<5?sizes[k]:1000; bool file=pick("file",2); std::unique_ptr<HistoryStorage> st;
    auto make=[&]{ if (file) { if (k==5) st.reset(new FileHistoryStorage("big")); else st.reset(new FileHistoryStorage("big",size)); } else { if (k==5) st.reset(new VolatileHistoryStorage()); else st.reset(new VolatileHistoryStorage(size)); } }; make();
    static const int batches[]={1,7,100,257,1003}; V want; int b=batches[pick("batch",5)], rounds=b==1?12:b==7?40:3; bool reopen=pick("reopen",2); int next=0;
    for (int r=0;r<rounds;++r) { V batch; for (int i=0;i<b;++i) batch.push_back("command "+std::to_string(next++)); if (r==rounds-1) batch[b/2]=symString(3,"x"); for (char c : batch[b/2]) symx_assume(c!='\n'); st->Store(batch); want.insert(want.end(),batch.begin(),batch.end()); if ((int)want.size()>size) want.erase(want.begin(),want.end()-size); if (file && reopen) make(); if (r==1 && b==7) { st->Clear(); want.clear(); } }
    expectAll(st->Commands(),want,"the most recent stored commands, in order, up to the size"); symx_reach("stored");
}
ENTRY(h_shared_file) { // several storages on one file, used in turn
    size_t size=symx_concretize(symx_choice("size",4)); FileHistoryStorage a("shared",size), b("shared",size); V want;
    for (int k=0;k<OPS;++k) {
        FileHistoryStorage& st=symx_choice("which",2)?a:b; int op=symx_choice("op",3);
        if (op==0) { V l; int n=symx_choice("n",BATCH+1); for (int i=0;i<n;++i) l.push_back(ln("line")); st.Store(l); for (auto& x : l) want.push_back(x); while (want.size()>size) want.erase(want.begin()); symx_reach("stored"); }
        else if (op==1) { st.Clear(); want.clear(); symx_reach("cleared"); }
        else { expectAll(st.Commands(),want,"the most recent stored commands, in order, up to the size"); symx_reach("read"); }
    }
    expectAll(a.Commands(),want,"the most recent stored commands, whoever stored them"); expectAll(b.Commands(),want,"the most recent stored commands, whoever stored them");
}
