// C15: telnet commands are filtered out and answered, whatever way the bytes are cut.
#include "hnet.h"
using namespace cli;
#ifndef BYTES
#define BYTES 6
#endif
#ifndef ITEMS
#define ITEMS 3
#endif
static const std::string banner("\xff\xfd\x22\xff\xfa\x22\x01\x00\xff\xf0\xff\xfb\x01",13);
static void typed(const std::string& d) { for (char c : d) symx_assume((unsigned char)c>=32 && (unsigned char)c!=127 && c!='!' && c!='"' && c!='\'' && c!='\\' && (unsigned char)c!=255); }
static void finish(NetWorld& w, Conn k, const TelnetSpec& spec, size_t from) { // what was echoed, answered, and executed
    std::string text, cmds; splitOutput(k->out.substr(from),text,cmds); observe(text); observe(cmds);
    expectEq(cmds,spec.replies,"the replies to the negotiation requests"); expectEq(text,spec.out,"the data bytes that reach the line editor");
    if (spec.s!=TelnetSpec::data) return;
    k->deliver(std::string("\r\0",2)); w.run(); symx_assert(w.entered.size()==1,"one line executed"); if (w.entered.size()==1) { observe(w.entered[0]); expectEq(w.entered[0],"x"+spec.out,"the line executed"); } symx_reach("executed");
}
static std::unique_ptr<Menu> root() { return std::make_unique<Menu>("R"); }
ENTRY(h_stream) { // any bytes, cut anywhere
    SetNoColor(); NetWorld w(root()); Conn k=w.connect(); k->deliver("x"); w.run(); size_t from=k->out.size();
    TelnetSpec spec; std::string s=symString(BYTES,"b"), chunk;
    for (char c : s) { spec.byte((unsigned char)c); if (spec.bad) symx_prune(); if (spec.s==TelnetSpec::nego) symx_reach("negotiation"); if (spec.s==TelnetSpec::sub) symx_reach("subnegotiation"); }
    typed(spec.out); if (spec.replies.size()) symx_reach("reply");
    for (size_t i=0;i<s.size();++i) { chunk+=s[i]; if (i+1==s.size() || symx_choice("cut",2)) { k->deliver(chunk); chunk.clear(); w.run(); } }
    finish(w,k,spec,from);
}
static std::string item() { // one well formed piece of a client's stream
    std::string s; auto any=[](const char* n){ return symString(1,n)[0]; };
    switch (pick("item",6)) {
        case 0: s+=any("d"); symx_assume((unsigned char)s[0]!=255); break;
        case 1: { s+='\xff'; char c=any("c"); symx_assume((unsigned char)c>=241 && (unsigned char)c<=249); s+=c; break; }
        case 2: { s+='\xff'; char c=any("c"); symx_assume((unsigned char)c>=251 && (unsigned char)c<=254); char o=any("o"); symx_assume((unsigned char)o!=255); s+=c; s+=o; break; }
        case 3: { s+="\xff\xfa"; char o=any("o"); symx_assume((unsigned char)o!=255); s+=o; char v=any("v"); symx_assume((unsigned char)v!=255); s+=v; s+="\xff\xf0"; break; }
        case 4: { s+="\xff\xfa"; char o=any("o"); symx_assume((unsigned char)o!=255); s+=o; s+="\xff\xff"; s+="\xff\xf0"; break; }
        case 5: { s+="\xff\xfa"; char o=any("o"); symx_assume((unsigned char)o!=255); s+=o; s+=std::string("\x00\x50\x00\x18",4); s+="\xff\xf0"; break; }
    }
    return s;
}
ENTRY(h_items) { // sequences of well formed commands and data, whole, byte by byte or cut at any one place
    SetNoColor(); NetWorld w(root()); Conn k=w.connect(); k->deliver("x"); w.run(); size_t from=k->out.size();
    TelnetSpec spec; std::string s; for (int i=0;i<ITEMS;++i) s+=item();
    for (char c : s) spec.byte((unsigned char)c); if (spec.bad||spec.s!=TelnetSpec::data) symx_prune(); typed(spec.out);
    size_t how=pick("cut",(int)s.size()+1); if (how==0) { for (char c : s) { k->deliver(std::string(1,c)); w.run(); } symx_reach("byte by byte"); } else { k->deliver(s.substr(0,how)); if (symx_choice("wait",2)) w.run(); if (how<s.size()) k->deliver(s.substr(how)); w.run(); symx_reach("cut"); }
    finish(w,k,spec,from);
}
ENTRY(h_at_once) { // the reply goes out when the request is read, before anything is typed after it, as it is, however slow the client
    asio::mock::conn::slow()=pick("slow",2)?1:(size_t)-1; SetNoColor(); NetWorld w(root()); Conn k=w.connect(); symx_assert(k->out.compare(0,banner.size(),banner)==0,"the opening negotiation"); size_t from=k->out.size();
    TelnetSpec spec; int n=pick("requests",3)+1; for (int i=0;i<n;++i) { unsigned char c=(unsigned char)(pick("do",2)?253:251); std::string o=symString(1,"opt"); symx_assume((unsigned char)o[0]!=255); std::string s="\xff"; s+=(char)c; s+=o; size_t cut=1+pick("cut",3); k->deliver(s.substr(0,cut)); w.run(); if (cut<3) { symx_assert(k->out.size()==from+spec.replies.size(),"answered before the request is complete"); k->deliver(s.substr(cut)); w.run(); } for (char ch : s) spec.byte((unsigned char)ch);
        std::string got=k->out.substr(from); observe(got); expectEq(got,spec.replies,"the reply, unaltered"); symx_reach("answered"); }
}
ENTRY(h_doubled) { // a doubled 255 is exactly one data byte: seen through an escape sequence, that takes it as its second byte
    SetNoColor(); NetWorld w(root()); Conn k=w.connect(); k->deliver("x"); w.run(); size_t from=k->out.size();
    std::string s("\x1b\xff\xff" "yz"); size_t cut=pick("cut",5); if (cut) { k->deliver(s.substr(0,cut)); w.run(); } k->deliver(s.substr(cut)); w.run();
    expectEq(k->out.substr(from),"yz","one data byte"); symx_assert(k->closes==0,"the session is alive"); k->deliver(std::string("\r\0",2)); w.run(); symx_assert(w.entered.size()==1 && w.entered[0]=="xyz","the line"); symx_reach("one byte");
}
ENTRY(h_large) { // more bytes than a read takes, with a command across the boundary
    SetNoColor(); NetWorld w(root()); Conn k=w.connect(); int pos=pick("pos",8); std::string o=symString(1,"opt"); symx_assume((unsigned char)o[0]!=255);
    std::string s(1020+pos-4,'a'); s+="\xff\xfd"; s+=o; s+="bcd"; TelnetSpec spec; for (char c : s) spec.byte((unsigned char)c); size_t from=k->out.size(); k->deliver(s); w.run();
    std::string text, cmds; splitOutput(k->out.substr(from),text,cmds); expectEq(cmds,spec.replies,"replies"); expectEq(text,spec.out,"data"); k->deliver(std::string("\r\0",2)); w.run(); symx_assert(w.entered.size()==1 && w.entered[0]==spec.out,"the line"); symx_reach("large");
}
ENTRY(h_flood) { // hundreds of requests in a packet, and a subnegotiation of thousands of bytes
    SetNoColor(); NetWorld w(root()); Conn k=w.connect(); k->deliver("x"); w.run(); size_t from=k->out.size(); TelnetSpec spec; std::string s; std::string o=symString(1,"opt"), v=symString(1,"v"); symx_assume((unsigned char)o[0]!=255 && (unsigned char)v[0]!=255);
    int how=pick("how",4);
    if (how==0) { for (int i=0;i<400;++i) { s+='\xff'; s+=(char)(251+i%4); s+=i==300?o[0]:(char)(i%250); if (i%40==0) s+=(char)('a'+i/40); } symx_reach("requests"); }
    else { s="a"; s+="\xff\xfa"; s+=o; int n=how==1?300:how==2?1100:5000; for (int i=0;i<n;++i) s+=i==n/2?v[0]:(char)(i%240); s+="\xff\xf0"; s+="bc\xff\xfd\x03" "d"; symx_reach("subnegotiation"); }
    for (char c : s) spec.byte((unsigned char)c); if (spec.bad||spec.s!=TelnetSpec::data) symx_prune(); typed(spec.out);
    k->deliver(s); w.run(); finish(w,k,spec,from);
}
ENTRY(h_after) { // a session that has seen hundreds of commands still filters them
    SetNoColor(); NetWorld w(root()); Conn k=w.connect(); k->deliver("x"); w.run(); size_t from=k->out.size(); TelnetSpec spec; auto give=[&](const std::string& s){ for (char c : s) spec.byte((unsigned char)c); k->deliver(s); w.run(); };
    for (int i=0;i<300;++i) { give(std::string("\xff\xf1\xff",3)); give(std::string("\xfd",1)+std::string(1,(char)(i%200))); if (i%30==0) give("m\xff\xfa\x1f"); if (i%30==0) give(std::string("\0\x50\0\x18\xff",5)); if (i%30==0) give("\xf0"); }
    std::string it=item(); give(it); if (spec.bad||spec.s!=TelnetSpec::data) symx_prune(); typed(spec.out); finish(w,k,spec,from); symx_reach("after");
}
ENTRY(h_two) { // two clients, their commands in pieces that interleave: each one has its own state
    SetNoColor(); NetWorld w(root()); Conn k[2]={w.connect(),w.connect()}; TelnetSpec spec[2]; std::string s[2]; size_t from[2], at[2]={0,0};
    for (int i=0;i<2;++i) { k[i]->deliver("x"); w.run(); from[i]=k[i]->out.size(); s[i]=item(); for (char c : s[i]) spec[i].byte((unsigned char)c); if (spec[i].bad||spec[i].s!=TelnetSpec::data) symx_prune(); typed(spec[i].out); }
    from[0]=k[0]->out.size(); from[1]=k[1]->out.size();
    int c0=1+pick("cut",(int)s[0].size()), c1=1+pick("cut",(int)s[1].size()); k[0]->deliver(s[0].substr(0,c0)); w.run(); k[1]->deliver(s[1].substr(0,c1)); if (pick("together",2)) w.run(); if (c0<(int)s[0].size()) k[0]->deliver(s[0].substr(c0)); w.run(); if (c1<(int)s[1].size()) k[1]->deliver(s[1].substr(c1)); w.run();
    for (int i=0;i<2;++i) { std::string text, cmds; splitOutput(k[i]->out.substr(from[i]),text,cmds); observe(text); observe(cmds); expectEq(cmds,spec[i].replies,"the replies to the negotiation requests"); expectEq(text,spec[i].out,"the data bytes that reach the line editor");
        w.entered.clear(); k[i]->deliver(std::string("\r\0",2)); w.run(); symx_assert(w.entered.size()==1,"one line executed"); if (w.entered.size()==1) expectEq(w.entered[0],"x"+spec[i].out,"the line executed"); }
    symx_reach("two");
}
