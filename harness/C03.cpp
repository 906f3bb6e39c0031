//@ job dense args=100..109,200..209,300..309,400..409 thorough=110..111,210..211,310..311,410..411,500..511
//@ job sparse args=1..16
//@ job sparse3 args=3,4 thorough=5..8
//@ job tail args=0..7 thorough=8
//@ job tail_many args=1..11
//@ job far args=1..4,6,9,12
//@ job far_tail args=1..5,11 t=200
//@ job dset args=15,16,17,32,33,64,65,129,130
//@ bound records of 1..4 (thorough 5) alternating text/integer fields over every byte string of length 0..9 (thorough 11) with one or (length <6) three delimiter characters
//@ bound records of 1..16 fields given as n+1 (or n, n-1) tokens in which any two bytes take every value
//@ bound trailing-container records: 1 leading field over every byte string of length 0..7 (thorough 8); 1..11 leading fields with any one byte taking every value; vector, deque, list, set, multiset, queue, stack, priority queue
//@ bound text fields of up to 1025 bytes and trailing lists of up to 130 numbers with a few arbitrary bytes
//@ bound sets of 15..130 delimiter characters with members at telling places of the set and one or two arbitrary bytes
#include "ref_tokens.h"
#include "ref_int.h"
#include <tuple>
#include <queue>
#include <stack>
struct F { std::string s; int i; };
template <int I,bool odd> struct Sel; template <int I> struct Sel<I,true>{ static int& g(F* f){ return f[I].i; } }; template <int I> struct Sel<I,false>{ static std::string& g(F* f){ return f[I].s; } };
template <int I> static auto& G(F* f) { return Sel<I,(I&1)!=0>::g(f); }
template <size_t... I> static bool call_s(const std::string& d,const std::string& del,F* f,std::index_sequence<I...>) { return strtk::parse(d,del,G<I>(f)...); }
template <size_t... I> static bool call_i(const std::string& d,const std::string& del,F* f,std::index_sequence<I...>) { return strtk::parse(d.data(),d.data()+d.size(),del,G<I>(f)...); }
template <int N> static bool call(const std::string& d,const std::string& del,F* f,bool iter) { return iter ? call_i(d,del,f,std::make_index_sequence<N>()) : call_s(d,del,f,std::make_index_sequence<N>()); }
template <int N> struct Disp { static bool go(int n,const std::string& d,const std::string& del,F* f,bool it){ return n==N ? call<N>(d,del,f,it) : Disp<N-1>::go(n,d,del,f,it); } };
template <> struct Disp<0> { static bool go(int,const std::string&,const std::string&,F*,bool){ return false; } };
static void check(int n,const std::string& s,const std::string& del,bool iter)
{
   std::vector<char> isd; for(size_t i=0;i<s.size();++i){ int is=0; for(size_t j=0;j<del.size();++j) is|=(s[i]==del[j]); isd.push_back(is?1:0); }
   F f[17]; for(int i=0;i<17;++i){ f[i].s="#"; f[i].i=-77-i; }
   bool ok=Disp<16>::go(n,s,del,f,iter); sym_observe(ok);
   ref_tokens r=ref_split(isd,M_COMPRESS);
   if ((int)r.size()<n) { CHECKM(!ok,"a record with too few fields is rejected"); for(int i=0;i<n;++i) CHECKM(f[i].s=="#" && f[i].i==-77-i,"a record with too few fields assigns nothing"); sym_reach("few"); return; }
   int v[17]; bool good=true; for(int i=1;i<n && good;i+=2) good=ref_int<int>(s.data()+r[i].first,r[i].second-r[i].first,v[i]);
   CHECKM(ok==good,"record accepted exactly when every field converts");
   if (ok) for(int i=0;i<n;++i) { if (i&1) { CHECKM(f[i].i==v[i],"integer field value"); } else { CHECKM((int)f[i].s.size()==r[i].second-r[i].first,"text field length"); CHECKM(f[i].s==s.substr(r[i].first,r[i].second-r[i].first),"text field value"); } sym_reach("ok"); }
   CHECKM(f[n].s=="#" && f[n].i==-77-n,"only the requested fields are assigned");
}
JOB(dense) { int n=arg/100,len=arg%100; std::string s; for(int i=0;i<len;++i) s.push_back((char)sym_u8()); bool multi=len<6 && sym_choose(2); check(n,s,multi?",; ":",",len<5 && sym_choose(2)); }
static std::string base(int n) { std::string s; for(int i=0;i<n;++i){ if(i) s+=','; s+= char(i&1 ? '0'+i%10 : 'a'+i); } return s; }
JOB(sparse)
{
   int m=arg-1+sym_choose(3); std::string s=base(m); if (m==0) s=""; 
   if (s.size()>1) { int a=sym_choose((int)s.size()), b=sym_choose((int)s.size()); sym_assume(a<=b); s[a]=(char)sym_u8(); s[b]=(char)sym_u8(); }
   check(arg,s,",",sym_choose(2));
}
JOB(sparse3) // three consecutive free bytes, several delimiters, multi-character fields
{
   std::string s; for(int i=0;i<arg+1;++i){ if(i) s+=",;"[i%2]; s+= (i&1) ? "-12" : "xy"; } int a=sym_choose((int)s.size()-2); for(int k=0;k<3;++k) s[a+k]=(char)sym_u8(); check(arg,s,";,",sym_choose(2));
}
// ---- trailing container
template <size_t... I,typename C> static bool callc(const std::string& d,const std::string& del,F* f,C& c,std::index_sequence<I...>) { return strtk::parse(d,del,G<I>(f)...,c); }
template <int N,typename C> struct DispC { static bool go(int n,const std::string& d,const std::string& del,F* f,C& c){ return n==N ? callc(d,del,f,c,std::make_index_sequence<N>()) : DispC<N-1,C>::go(n,d,del,f,c); } };
template <typename C> struct DispC<0,C> { static bool go(int,const std::string&,const std::string&,F*,C&){ return false; } };
static std::vector<int> items(const std::vector<int>& c){ return c; } static std::vector<int> items(const std::deque<int>& c){ return std::vector<int>(c.begin(),c.end()); } static std::vector<int> items(const std::list<int>& c){ return std::vector<int>(c.begin(),c.end()); }
static std::vector<int> items(const std::set<int>& c){ return std::vector<int>(c.begin(),c.end()); } static std::vector<int> items(const std::multiset<int>& c){ return std::vector<int>(c.begin(),c.end()); }
static std::vector<int> items(std::queue<int>& c){ std::vector<int> v; while(!c.empty()){ v.push_back(c.front()); c.pop(); } return v; }
static std::vector<int> items(std::stack<int>& c){ std::vector<int> v; while(!c.empty()){ v.insert(v.begin(),c.top()); c.pop(); } return v; }
static std::vector<int> items(std::priority_queue<int>& c){ std::vector<int> v; while(!c.empty()){ v.insert(v.begin(),c.top()); c.pop(); } return v; }
enum { SEQ, SORT, UNIQ };
template <typename C> static void checkc(int n,const std::string& s,int kind,bool many)
{
   std::vector<char> isd; for(size_t i=0;i<s.size();++i) isd.push_back((s[i]==',')|(many&(s[i]==';')));
   F f[17]; for(int i=0;i<17;++i){ f[i].s="#"; f[i].i=-77-i; } C c;
   bool ok=DispC<11,C>::go(n,s,many?";,":",",f,c); sym_observe(ok);
   ref_tokens r=ref_split(isd,M_COMPRESS); std::vector<int> got=items(c);
   if ((int)r.size()<n+1) { CHECKM(!ok,"too few fields for the trailing container"); CHECK(got.empty()); return; }
   int v[17]; bool good=true; for(int i=1;i<n && good;i+=2) good=ref_int<int>(s.data()+r[i].first,r[i].second-r[i].first,v[i]);
   std::vector<int> w; for(size_t i=n;i<r.size() && good;++i){ int x; good=ref_int<int>(s.data()+r[i].first,r[i].second-r[i].first,x); if (good) w.push_back(x); }
   CHECKM(ok==good,"trailing-container record accepted exactly when every token converts");
   if (!ok) return;
   if (kind!=SEQ) std::sort(w.begin(),w.end()); if (kind==UNIQ) w.erase(std::unique(w.begin(),w.end()),w.end());
   CHECKM(got.size()==w.size(),"number of elements in the trailing container"); for(size_t i=0;i<w.size();++i) CHECKM(got[i]==w[i],"elements of the trailing container");
   for(int i=0;i<n;++i) if (!(i&1)) CHECKM(f[i].s==s.substr(r[i].first,r[i].second-r[i].first),"leading text field"); else CHECKM(f[i].i==v[i],"leading integer field");
   sym_reach("ok");
}
static void any(int w,int n,const std::string& s,bool many=false) { switch(w){ case 0:checkc<std::vector<int> >(n,s,SEQ,many);break; case 1:checkc<std::deque<int> >(n,s,SEQ,many);break; case 2:checkc<std::list<int> >(n,s,SEQ,many);break; case 3:checkc<std::set<int> >(n,s,UNIQ,many);break; case 4:checkc<std::multiset<int> >(n,s,SORT,many);break; case 5:checkc<std::queue<int> >(n,s,SEQ,many);break; case 6:checkc<std::stack<int> >(n,s,SEQ,many);break; case 7:checkc<std::priority_queue<int> >(n,s,SORT,many);break; } }
JOB(tail) { std::string s; for(int i=0;i<arg;++i) s.push_back((char)sym_u8()); if (arg>5) any(sym_choose(2)*4,1,s); else any(sym_choose(8),1,s); }
JOB(tail_many) { std::string s=base(arg); bool many=sym_choose(2); s+=many?";5,3;5":",5,3,5"; if (many) for(size_t i=0;i<s.size();i+=3) if (s[i]==',') s[i]=';'; s[sym_choose((int)s.size())]=(char)sym_u8(); any(sym_choose(8),arg,s,many); }
// long text fields, integers with many leading zeros and long trailing lists, with a few arbitrary bytes
JOB(far)
{
   static const int L[]={16,33,64,129,257,1025}; int w=L[sym_choose(6)]; std::string s; for(int i=0;i<arg;++i){ if (i) s+=(i%3)?",":",,"; if (i&1) s+=std::string(w%40,'0')+"421"; else { std::string t(w,'k'); t[0]=(char)sym_u8(); t[w-1]=(char)sym_u8(); if (i) { t[0]='a'; t[w-1]='z'; } s+=t; } } s[s.size()-1]=(char)sym_u8(); check(arg,s,sym_choose(2)?",":";,",sym_choose(2));
}
JOB(far_tail)
{
   static const int L[]={17,65,130}; int n=L[sym_choose(3)]; std::string s=base(arg); std::string t; for(int i=0;i<n;++i){ t+=','; if (i%5==3) t+=','; t+= i%4==1?"-37":i%4==2?"4":"0120"; } int at[4]={0,(int)t.size()/2,(int)t.size()-1,(int)t.size()-2}; t[at[sym_choose(4)]]=(char)sym_u8(); s+=t; static const int K[]={0,1,2,5,6}; if (n>17) any(K[sym_choose(5)],arg,s); else any(sym_choose(8),arg,s);
}
JOB(dset)
{
   std::string d=many(arg); int k=place(arg); char a=d[k],z=d[arg-1-k]; std::string s="kx"; s+=a; s+="42"; s+=z; s+=a; s+="pq"; s+=d[arg-1]; s+=(char)sym_u8(); s+='7'; check(3+sym_choose(3),s,d,sym_choose(2));
}
