// scratch files: in memory inside the symbolic executor, in the replay's temporary directory natively (unique per process)
#pragma once
#include <fstream>
#include <sstream>
#include <cstdio>
#include <unistd.h>
static std::string F(int k){ std::string s("f"); s+=(char)('0'+k); if (!sym_is_engine()) { char b[32]; snprintf(b,sizeof b,"_%d",(int)getpid()); s+=b; } return s; }
struct scratch { scratch(){ clean(); } ~scratch(){ clean(); } void clean(){ if (!sym_is_engine()) for(int i=0;i<6;++i) remove(F(i).c_str()); } };
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
static void put(int k,const std::string& s){ std::ofstream o(F(k).c_str(),std::ios::binary); o.write(s.data(),s.size()); o.close(); }
static std::string get(int k){ std::ifstream i(F(k).c_str(),std::ios::binary); std::string s; char c; while (i.get(c)) s+=c; return s; }
// the lines of a text: pieces between newlines, a last piece only if it is not empty
static std::vector<std::string> linesof(const std::string& s){ std::vector<std::string> v; std::string l; for(size_t i=0;i<s.size();++i) if (s[i]=='\n') { v.push_back(l); l.clear(); } else l+=s[i]; if (!l.empty()) v.push_back(l); return v; }
