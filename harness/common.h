#pragma once
#include "../engine/sym.h"
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <utility>
#include <algorithm>
#include <iterator>
#include "strtk.hpp"
// a long text: bytes drawn irregularly from pat (its length L), with symbolic bytes at the first, middle and last position
static inline std::string mixed(int n,const char* pat,int L,int k=3){ std::string s(n,0); unsigned x=12345u+n; for(int i=0;i<n;++i){ x=x*1103515245u+12345u; s[i]=pat[(x>>16)%(unsigned)L]; } if (n&&k>0) sym_bytes(&s[n-1],1); if (n>1&&k>1) sym_bytes(&s[n/2],1); if (n>2&&k>2) sym_bytes(&s[0],1); return s; }
#define MIXED(n,pat) mixed(n,pat,(int)sizeof(pat)-1)
// a set of n delimiter characters from '{' on (n<=133), and some of its members at telling places
static inline std::string many(int n){ std::string d; for(int i=0;i<n;++i) d+=(char)(0x7B+i); return d; }
static inline int inmany(char c,int n){ return (unsigned)(unsigned char)c-0x7Bu<(unsigned)n; }
static inline int place(int n){ int p[]={0,n/2,14,15,16,31,32,63,64,127,128,n-2,n-1}; int k=p[sym_choose(13)]; return k<0||k>=n?n-1:k; }
