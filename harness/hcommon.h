// Shared helpers for harnesses (compiled both for symx and natively).
#pragma once
#include "symx.h"
#include <string>
#include <vector>
#include <cstring>
// what every real network library header and most user programs bring in: a header of the library that relies on it still compiles
#include <system_error>
#include <functional>
#include <memory>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <utility>
#include <map>
#include <atomic>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <chrono>
#define ENTRY(n) extern "C" void n()
// N symbolic bytes as a std::string of concrete length
inline std::string symString(size_t n, const char* name) { std::string s(n,'\0'); if (n) symx_buf(&s[0],n,name); return s; }
inline int pick(const char* name, int n) { return (int)symx_concretize(symx_choice(name,n)); } // a choice decided at once
inline void observe(const std::string& s) { symx_observe_u64(s.size()); if (!s.empty()) symx_observe(s.data(),s.size()); }
// content equality as one (non-forking) condition
inline bool sameBytes(const std::string& a, const std::string& b) { if (a.size()!=b.size()) return false; return a.empty() || memcmp(a.data(),b.data(),a.size())==0; }
inline void expectEq(const std::string& a, const std::string& b, const char* msg) { symx_assert(a.size()==b.size(),msg); if (a.size()==b.size() && !a.empty()) symx_assert_mem(a.data(),b.data(),a.size(),msg); }
