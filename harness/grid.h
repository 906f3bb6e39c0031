// reference model of a token grid: rows are the non-empty lines, tokens the fields of a line
#pragma once
#include "common.h"
#include <cstring>
typedef strtk::token_grid grid_t; typedef grid_t::range_t rng; typedef grid_t::row_type row_t;
typedef std::vector<std::vector<std::pair<int,int> > > model;
static inline bool isd(unsigned char c,const char* set){ for(;*set;++set) if (c==(unsigned char)*set) return true; return false; }
// fields of [b,e): each delimiter ends a field; when compressing, a run of delimiters counts as one
static inline std::vector<std::pair<int,int> > fields(const unsigned char* t,int b,int e,const char* cd,bool comp,bool dq){ std::vector<std::pair<int,int> > r; int s=b; bool q=false; for(int i=b;i<e;){ if (dq&&t[i]=='"') q=!q; else if (!q&&isd(t[i],cd)) { r.push_back(std::make_pair(s,i)); ++i; if (comp) while(i<e&&isd(t[i],cd)) ++i; s=i; continue; } ++i; } r.push_back(std::make_pair(s,e)); return r; }
static inline model ref(const unsigned char* t,int n,const char* cd,const char* rd,bool comp,bool dq,bool trim){ model m; int s=0; for(int i=0;i<=n;++i) if (i==n||isd(t[i],rd)) { if (i>s) m.push_back(fields(t,s,i,cd,comp,dq)); s=i+1; } if (trim) for(size_t r=0;r<m.size();++r) for(size_t c=0;c<m[r].size();++c) { std::pair<int,int>& k=m[r][c]; if (k.second-k.first>=2&&t[k.first]=='"'&&t[k.second-1]=='"') { ++k.first; --k.second; } } return m; }
static inline void same(const grid_t& g,const unsigned char* t,const model& m,const char* what="tokens of the grid"){ CHECKM(g.row_count()==m.size(),"number of rows"); size_t mn=(size_t)-1,mx=0; for(size_t r=0;r<m.size();++r){ row_t w=g.row(r); CHECKM(w.size()==m[r].size(),"number of tokens in a row"); CHECK(w.index()==r); if (m[r].size()<mn) mn=m[r].size(); if (m[r].size()>mx) mx=m[r].size(); for(size_t c=0;c<m[r].size();++c){ rng k=g.token(r,c),k2=w.token(c); CHECKM(k.first==t+m[r][c].first&&k.second==t+m[r][c].second,what); CHECKM(k2==k,"token of a row"); } rng z=g.token(r,m[r].size()); CHECKM(z.first==0&&z.second==0,"no token beyond the row"); } rng z=g.token(m.size(),0); CHECKM(z.first==0&&z.second==0,"no token beyond the grid"); if (!m.empty()) CHECKM(g.min_column_count()==mn&&g.max_column_count()==mx,"smallest and largest row"); }
static inline grid_t::options opt(bool comp,bool dq=false,bool trim=false,const char* cd=",",const char* rd="\n"){ using namespace strtk; return grid_t::options(split_options::compress_delimiters,comp?split_options::compress_delimiters:split_options::default_mode,rd,cd,dq,trim); }
