// A telnet server on the modelled network library (mockasio/asio.hpp).
#pragma once
#include "hcli.h"
#ifdef USE_BOOST
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
typedef cli::BoostAsioScheduler AsioSched; typedef cli::BoostAsioCliTelnetServer TelnetServer;
#else
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
typedef cli::StandaloneAsioScheduler AsioSched; typedef cli::StandaloneAsioCliTelnetServer TelnetServer;
#endif
typedef asio::ip::tcp::acceptor Acceptor; typedef std::shared_ptr<asio::mock::conn> Conn;
struct NetWorld {
    std::unique_ptr<cli::Cli> c; std::unique_ptr<AsioSched> sch; std::unique_ptr<TelnetServer> srv; std::vector<std::string> entered; // the lines executed (wrong commands)
    NetWorld(std::unique_ptr<cli::Menu> m, size_t hist=100) {
        c.reset(new cli::Cli(std::move(m))); c->WrongCommandHandler([this](std::ostream&,const std::string& l){ entered.push_back(l); });
        sch.reset(new AsioSched()); srv.reset(new TelnetServer(*c,*sch,5000,hist));
    }
    ~NetWorld() { srv.reset(); sch.reset(); c.reset(); } // the usual order: the cli outlives the sessions
    asio::io_context& ctx() { return sch->AsioContext(); }
    void run() { while (ctx().ready() && !sch->Stopped()) sch->PollOne(); }
    Conn connect() { auto k=Acceptor::last()->mockConnect(); run(); return k; }
};
inline std::string crlf(const std::string& s) { std::string r; for (char c : s) { if (c=='\n') r+='\r'; r+=c; } return r; }
// the telnet protocol, as the client means it
struct TelnetSpec {
    enum S { data, iac, nego, sub, subiac } s=data; int cmd=0; bool bad=false; std::string out, replies; bool subOpt=false;
    void byte(unsigned char b) {
        switch (s) {
            case data: if (b==255) s=iac; else out+=(char)b; break;
            case iac: s=data; if (b==255) out+=(char)255; else if (b==250) { s=sub; subOpt=false; } else if (b>=251) { s=nego; cmd=b; } break; // any other command has no argument
            case nego: s=data; if (b==255) { bad=true; break; } reply(b); break;
            case sub: if (b==255) s=subiac; break;
            case subiac: if (b==240) s=data; else if (b==255) s=sub; else bad=true; break;
        }
    }
    void send(int c, unsigned char o) { replies+=(char)255; replies+=(char)c; replies+=(char)o; }
    void reply(unsigned char o) {
        if (cmd==251) { if (o==3) send(251,o); else if (o==31) send(253,o); else send(254,o); }
        else if (cmd==253) { if (o==1) send(253,o); else if (o==3) send(251,o); else send(252,o); }
    }
};
// splits what the client receives into text and telnet commands
inline void splitOutput(const std::string& out, std::string& text, std::string& cmds) { for (size_t i=0;i<out.size();) if ((unsigned char)out[i]==255) { size_t n=out.size()-i<3?out.size()-i:3; cmds.append(out,i,n); i+=n; } else text+=out[i++]; }
