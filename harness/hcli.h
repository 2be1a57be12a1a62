// Fixture shared by the harnesses that drive a whole Cli.
#pragma once
#include "hcommon.h"
#include <cli/cli.h>
#include <sstream>
#include <memory>
// A terminal screen: interprets what a terminal does with the output (printable bytes, \b, \r, \n, CSI ...m ignored,
// ESC[H home, ESC[J clear to end of screen). Bytes are compared against the control codes, so they may be symbolic.
struct Screen {
    std::vector<std::string> rows{std::string()}; size_t r=0, c=0; int esc=0; bool weird=false;
    void put(char ch) { std::string& row=rows[r]; if (row.size()<=c) row.resize(c+1,' '); row[c++]=ch; }
    void feed(const std::string& s) { for (char ch : s) one(ch); }
    void one(char ch) {
        if (esc==1) { if (ch=='[') esc=2; else { weird=true; esc=0; } return; }
        if (esc==2) { if (ch=='m') esc=0; else if (ch=='H') { r=c=0; esc=0; } else if (ch=='J') { rows.resize(r+1); rows[r].resize(c); esc=0; } else if ((ch>='0'&&ch<='9')||ch==';') ; else { weird=true; esc=0; } return; }
        if (ch=='\b') { if (c) --c; else weird=true; }
        else if (ch=='\r') c=0;
        else if (ch=='\n') { ++r; c=0; if (rows.size()<=r) rows.resize(r+1); }
        else if (ch==27) esc=1;
        else put(ch);
    }
    std::string line() const { std::string t=rows[r]; while (!t.empty() && t.back()==' ') t.pop_back(); return t; } // trailing blanks do not show
};
