// C16: keys sent over telnet edit the line like the same local keys.
#include "hnet.h"
#include "hkeys.h"
using namespace cli; using namespace cli::detail;
#ifndef BYTES
#define BYTES 4
#endif
#ifndef KEYS
#define KEYS 3
#endif
typedef std::vector<std::pair<KeyType,char>> Ks;
struct KeySpec { // the keys encoded by a stream of data bytes
    enum S { plain, esc, csi, csi3, skip, cr } s=plain; Ks keys; bool bad=false;
    void key(KeyType t, char c=' ') { keys.push_back(std::make_pair(t,c)); s=plain; }
    void unknown(char c) { s = c>=32 && c<64 ? skip : plain; }
    void byte(char c) {
        unsigned char u=(unsigned char)c;
        switch (s) {
            case plain:
                if (u==4 || u==255) key(KeyType::eof); else if (u==8 || u==127) key(KeyType::backspace); else if (u==12) key(KeyType::clear); else if (u==27) s=esc; else if (u==13) s=cr;
                else { if (u<32 && u!=9) bad=true; key(KeyType::ascii,c); } break; // other control characters mean nothing
            case esc: s = c=='[' ? csi : plain; break;
            case csi: switch (c) { case 'A': key(KeyType::up); break; case 'B': key(KeyType::down); break; case 'C': key(KeyType::right); break; case 'D': key(KeyType::left); break; case 'F': key(KeyType::end); break; case 'H': key(KeyType::home); break; case '3': s=csi3; break; default: unknown(c); } break;
            case csi3: if (c=='~') key(KeyType::canc); else unknown(c); break;
            case skip: unknown(c); break;
            case cr: if (u==0 || u==10) key(KeyType::ret); else { bad=true; s=plain; } break; // never sent by a telnet client
        }
    }
};
static std::unique_ptr<Menu> root(std::vector<std::string>* log) { auto m=std::make_unique<Menu>("R"); for (const char* n : {"xab","xac","xq"}) m->Insert(n,[log,n](std::ostream& o){ log->push_back(n); o << "<" << n << ">\n"; }); return m; }
struct Pair { // the same keys, over telnet and on a local input device
    std::vector<std::string> la, lb; NetWorld net; KeyWorld loc; Conn k; bool gone=false; size_t from; KeySpec spec; size_t given=0; std::string shown;
    Pair() : net(root(&la)), loc(root(&lb)) { SetNoColor(); k=net.connect(); from=k->out.size(); }
    void bytes(const std::string& s) { k->deliver(s); net.run(); for (char c : s) spec.byte(c); if (spec.bad) symx_prune(); }
    void check() {
        for (;given<spec.keys.size() && !gone;++given) { auto x=spec.keys[given]; if (x.first==KeyType::eof) { gone=true; symx_reach("end of file"); } loc.kb.key(x.first,x.second); shown+=crlf(loc.out.str()); loc.out.str(""); }
        if (given<spec.keys.size()) symx_prune(); // what arrives together with the end of file
        std::string got=k->out.substr(from); observe(got); expectEq(got,shown,"the terminal shows the same as locally");
        symx_assert((k->closes==0)==!gone,"the session ends at end of file only"); symx_assert(la.size()==lb.size() && net.entered.size()==loc.entered.size(),"the same commands run");
        if (la.size()==lb.size()) for (size_t i=0;i<la.size();++i) symx_assert(la[i]==lb[i],"the same command"); if (net.entered.size()==loc.entered.size()) for (size_t i=0;i<net.entered.size();++i) expectEq(net.entered[i],loc.entered[i],"the same line");
    }
    void end() { if (gone) return; bytes(std::string(spec.s==KeySpec::plain||spec.s==KeySpec::cr?"":"z")+std::string(spec.s==KeySpec::cr?"":"\r")+"\n"); check(); symx_reach("line ended"); }
};
static void tame(const std::string& s) { for (char c : s) symx_assume(c!='!' && c!='"' && c!='\'' && c!='\\' && c!='\t' && c!='i'/*no exit, history*/ && (unsigned char)c!=255); }
ENTRY(h_bytes) { Pair p; p.bytes("x"); std::string s=symString(BYTES,"b"); tame(s); p.bytes(s); p.check(); p.end(); } // any data bytes after a letter
ENTRY(h_onebyone) { Pair p; p.bytes("xac\r\n"); p.check(); std::string s=symString(BYTES,"b"); tame(s); for (char c : s) { p.bytes(std::string(1,c)); p.check(); } p.end(); } // with a history, one packet each
static const char* const seqs[]={"a","q","\t","\b","\x7f","\f","\r\n",nullptr/*CR NUL*/,"\x1b[A","\x1b[B","\x1b[C","\x1b[D","\x1b[F","\x1b[H","\x1b[3~","\x1b[5~","\x1b[1;5C","\x1bO","\x1b[P","\x1b[33~","\x04"};
static std::string seq(int i) { return seqs[i]?std::string(seqs[i]):std::string("\r\0",2); }
ENTRY(h_keys) { // every sequence of keys, cut at any place
    Pair p; if (pick("history",2)) { p.bytes("xac\r\nxzz\r\n"); } std::string s; for (int i=0;i<KEYS;++i) s+=seq(pick("key",(int)(sizeof seqs/sizeof *seqs)));
    s="xa"+s; size_t cut=pick("cut",(int)s.size()); if (cut) { p.bytes(s.substr(0,cut)); p.check(); } p.bytes(s.substr(cut)); p.check(); p.end();
}
ENTRY(h_edit) { // an edited line, then every pair of keys
    Pair p; p.bytes("xac\r\nxzz\r\n"); std::string s="xabcd"; int l=pick("left",6); for (int i=0;i<l;++i) s+="\x1b[D"; p.bytes(s); p.check(); for (int i=0;i<2;++i) { p.bytes(seq(pick("key",(int)(sizeof seqs/sizeof *seqs)))); p.check(); } p.end();
}
ENTRY(h_two) { // two sessions at once: each sees its own keys only
    SetNoColor(); std::vector<std::string> la, l1, l2; NetWorld net(root(&la)); KeyWorld w1(root(&l1)), w2(root(&l2)); KeyWorld* w[2]={&w1,&w2}; KeySpec spec[2]; std::string shown[2]; size_t from[2], given[2]={0,0}, lines=0;
    Conn k[2]; for (int i=0;i<2;++i) k[i]=net.connect(); for (int i=0;i<2;++i) from[i]=k[i]->out.size();
    auto give=[&](int i, const std::string& s) {
        for (char c : s) spec[i].byte(c); k[i]->deliver(s); net.run(); if (spec[i].bad) symx_prune();
        for (;given[i]<spec[i].keys.size();++given[i]) { auto x=spec[i].keys[given[i]]; if (x.first==KeyType::eof) symx_prune(); if (x.first==KeyType::ret) ++lines; w[i]->kb.key(x.first,x.second); shown[i]+=crlf(w[i]->out.str()); w[i]->out.str(""); }
        for (int j=0;j<2;++j) { std::string got=k[j]->out.substr(from[j]); observe(got); expectEq(got,shown[j],"each terminal shows its own keys"); }
        symx_assert(l1.size()+l2.size()==la.size() && net.entered.size()==w1.entered.size()+w2.entered.size(),"the commands of the two sessions run");
    };
    give(0,"xac\r\n"); give(0,"xab"); give(1,"xq");
    std::string a=seq(pick("key",(int)(sizeof seqs/sizeof *seqs))), b=seq(pick("key2",(int)(sizeof seqs/sizeof *seqs))); 
    size_t ca=pick("cut",(int)a.size()), cb=pick("cut2",(int)b.size()); // both keys arrive in two packets, interleaved
    if (ca) give(0,a.substr(0,ca)); if (cb) give(1,b.substr(0,cb)); give(0,a.substr(ca)); give(1,b.substr(cb));
    for (int i=0;i<2;++i) give(i,std::string(spec[i].s==KeySpec::plain||spec[i].s==KeySpec::cr?"":"z")+std::string(spec[i].s==KeySpec::cr?"":"\r")+"\n"); symx_reach("both ended");
}
ENTRY(h_long) { // a line of hundreds of characters, edited in its middle, in one packet or many
    Pair p; p.bytes("xac\r\nxzz\r\n"); p.check(); std::string s="x"; for (int i=0;i<300;++i) s+=(char)('a'+i%8); int l=pick("left",3); static const int ls[]={1,130,290}; for (int i=0;i<ls[l];++i) s+="\x1b[D"; std::string c=symString(1,"c"); tame(c); s+=c; s+=seq(pick("key",(int)(sizeof seqs/sizeof *seqs))); s+="cd";
    if (pick("packets",2)) for (size_t i=0;i<s.size();i+=7) p.bytes(s.substr(i,7)); else p.bytes(s); p.check(); p.end();
}
ENTRY(h_many) { // hundreds of lines
    Pair p; std::string c=symString(1,"c"); tame(c); symx_assume(c[0]!='\x1b' && c[0]!='\r'); for (int i=0;i<200;++i) { std::string s="xa"+std::to_string(i%7); if (i==150) s+=c; s+=i%2?"\r\n":std::string("\r\0",2); p.bytes(s); if (i%10==0) p.check(); if (p.gone) return; } p.check();
    std::string s; int n=pick("up",3)*90+1; for (int i=0;i<n;++i) s+="\x1b[A"; p.bytes(s); p.check(); p.end(); symx_reach("many");
}
