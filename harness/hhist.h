// Reference model of the history (newest first), written from its description.
#pragma once
#include "hcommon.h"
struct HistModel {
    struct Item { std::string text; size_t id; bool own; };
    size_t size, nextId=0, idx=0; bool browsing=false; std::vector<Item> past; // past[0] is the newest
    explicit HistModel(size_t n) : size(n) {}
    // the line being edited takes one place while browsing
    void push(const std::string& t, bool own) { past.insert(past.begin(),Item{t,nextId++,own}); if (past.size()>size) past.pop_back(); }
    void load(const std::string& t) { push(t,false); }
    void stopBrowsing() { if (browsing && !past.empty()) { past.erase(past.begin()); --nextId; } browsing=false; idx=0; }
    void enter(const std::string& t) {
        stopBrowsing();
        if (!past.empty() && sameBytes(past[0].text,t)) { past[0].own=true; return; } // repeated: once
        push(t,true);
    }
    std::string up(const std::string& editing) {
        if (size==0) return editing;
        if (!browsing) { push(editing,false); browsing=true; idx=0; } else past[idx].text=editing;
        if (idx+1<past.size()) ++idx;
        return past[idx].text;
    }
    std::string down() { if (past.empty() || idx==0) return ""; return past[--idx].text; }
    void forgetLatest() { if (!past.empty()) { past.erase(past.begin()); --nextId; } }
    bool at(size_t id, std::string& t) const { for (size_t i=browsing?0:0;i<past.size();++i) if (past[i].id==id) { t=past[i].text; return true; } return false; }
    std::vector<std::string> own() const { std::vector<std::string> r; for (size_t i=past.size(); i-->(browsing?1u:0u);) if (past[i].own) r.push_back(past[i].text); return r; }
    std::string listing() const { std::string r="\n"; for (size_t i=past.size(); i-->0;) r+=std::to_string(past[i].id)+"\t"+past[i].text+"\n"; return r+"\n"; }
};
inline std::string symLine(size_t n, const char* name) { std::string s=symString(n,name); for (char c : s) symx_assume(c!=' '&&c!='\t'&&c!='\n'&&c!='!'&&c!='"'&&c!='\''&&c!='\\'); return s; }
