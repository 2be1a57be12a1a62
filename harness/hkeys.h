// A session driven by keys, as a local or telnet user would: immediate scheduler, scripted input device, emulated screen.
#pragma once
#include "hcli.h"
#include <cli/detail/commandprocessor.h>
#include <cli/detail/screen.h>
#include <cli/detail/telnetscreen.h>
struct NowScheduler : cli::Scheduler { void Post(const std::function<void()>& f) override { f(); } };
struct Keys : cli::detail::InputDevice {
    int depth=0, activations=0, deactivations=0;
    explicit Keys(cli::Scheduler& s) : InputDevice(s) {}
    void ActivateInput() override { ++activations; }
    void DeactivateInput() override { ++deactivations; }
    void key(cli::detail::KeyType t, char c=' ') { Notify(std::make_pair(t,c)); }
};
struct KeyWorld {
    NowScheduler sch; Keys kb; std::unique_ptr<cli::Cli> c; std::ostringstream out; std::unique_ptr<cli::CliSession> s; std::unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> cp; Screen scr; std::vector<std::string> entered; size_t seen=0;
    KeyWorld(std::unique_ptr<cli::Menu> m, size_t hist=100) : kb(sch) {
        c.reset(new cli::Cli(std::move(m))); c->WrongCommandHandler([this](std::ostream&,const std::string& l){ entered.push_back(l); });
        s.reset(new cli::CliSession(*c,out,hist)); cp.reset(new cli::detail::CommandProcessor<cli::detail::TelnetScreen>(*s,kb));
        s->Prompt(); refresh();
    }
    void refresh() { scr.feed(out.str()); out.str(""); }
    void key(cli::detail::KeyType t, char c=' ') { kb.key(t,c); refresh(); }
};
inline std::string rtrim(std::string t) { while (!t.empty() && t.back()==' ') t.pop_back(); return t; }
inline void printable(const std::string& s) { for (char c : s) symx_assume((unsigned char)c>=32 && c!=127); }
