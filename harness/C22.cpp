//@ job lookup args=1..4
//@ job bytes args=0..4 t=300
//@ job again args=0..3
//@ job keys args=0..3
//@ job prefix args=0..5
//@ job far args=0..3
//@ bound every set of up to 4 keys of up to 3 symbolic characters, then every lookup of up to 4 characters; one long key; keys of characters, bytes and integers; every order of insertion and repeated keys
//@ bound up to 64 keys (up to 70 characters)
#include "common.h"
typedef strtk::prefix_trie<int>::std_string trie_t;
static std::string key(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
static bool same(const std::string& a,const std::string& b){ if (a.size()!=b.size()) return false; int e=1; for(size_t i=0;i<a.size();++i) e&=(a[i]==b[i]); return e; }
static bool pre(const std::string& q,const std::string& k){ return !q.empty()&&q.size()<=k.size()&&same(q,k.substr(0,q.size())); }
static void probe(trie_t& t,const std::vector<std::string>& k,const std::vector<int>& v,const std::string& q,bool cstr=false)
{
   int x=-9,e=-9; bool in=false,pf=false; for(size_t i=0;i<k.size();++i){ if (!k[i].empty()&&same(k[i],q)) { in=true; e=v[i]; } if (pre(q,k[i])) pf=true; }
   if (cstr) for(size_t i=0;i<q.size();++i) sym_assume(q[i]!=0);
   bool g=cstr?strtk::trie::find(t,q.c_str(),x):strtk::trie::find(t,q,x); CHECKM(g==in,"found exactly when the key was inserted"); CHECKM(x==e,"the value inserted last with that key"); bool p=cstr?strtk::trie::find_prefix(t,q.c_str()):strtk::trie::find_prefix(t,q); CHECKM(p==pf,"prefix of an inserted key");
   if (g) sym_reach("found"); if (p&&!g) sym_reach("prefix only");
}
JOB(lookup){ trie_t t; std::vector<std::string> k; std::vector<int> v; int L=arg<3?3:2; for(int i=0;i<arg;++i){ k.push_back(key(sym_choose(arg==4?2:L+1)+(arg==4))); v.push_back(100+i); strtk::trie::insert(t,k[i],v[i]); } probe(t,k,v,key(sym_choose(arg<3?5:3))); }
JOB(bytes){ trie_t t; std::vector<std::string> k; std::vector<int> v; k.push_back(key(arg)); k.push_back(key(sym_choose(arg+1))); v.push_back(sym<int>()); v.push_back(sym<int>()); for(int i=0;i<2;++i) strtk::trie::insert(t,k[i],v[i]); probe(t,k,v,key(sym_choose(arg+2))); }
JOB(again){ trie_t t; std::vector<std::string> k; std::vector<int> v; probe(t,k,v,key(2)); for(int i=0;i<3;++i){ std::string s=key(arg); bool c=sym_choose(2); if (c) for(size_t j=0;j<s.size();++j) sym_assume(s[j]!=0); k.push_back(s); v.push_back(i); if (c) strtk::trie::insert(t,s.c_str(),i); else strtk::trie::insert(t,s,i); probe(t,k,v,s,c); } for(size_t j=0;j<k.size();++j) probe(t,k,v,k[j]); }
template <typename T> static void ints(){ T a[3],b[3],q[3]; sym_bytes(a,sizeof a); sym_bytes(b,sizeof b); sym_bytes(q,sizeof q); strtk::trie::prefix<T*,std::string> t; int na=1+sym_choose(3),nb=1+sym_choose(3),nq=sym_choose(4); t.insert(a,a+na,std::string("first")); t.insert(b,b+nb,std::string("second, longer than the small string buffer")); std::string r="none",e="none"; struct E { static bool eq(T* x,int n,T* y,int m){ if (n!=m) return false; int g=1; for(int i=0;i<n;++i) g&=(x[i]==y[i]); return g; } }; bool in=false,pf=false; if (nq){ if (E::eq(a,na,q,nq)) { in=true; e="first"; } if (E::eq(b,nb,q,nq)) { in=true; e="second, longer than the small string buffer"; } if ((nq<=na&&E::eq(a,nq,q,nq))||(nq<=nb&&E::eq(b,nq,q,nq))) pf=true; }
   bool g=t.find(q,q+nq,r); CHECKM(g==in,"key found"); CHECKM(r==e,"value found"); CHECKM(t.find_prefix(q,q+nq)==pf,"prefix found"); }
JOB(keys){ switch(arg){ case 0: ints<unsigned int>(); break; case 1: ints<char>(); break; case 2: ints<long long>(); break; default: ints<unsigned char>(); } }
// one long key, every lookup that differs from it (or its extension) in at most one place
JOB(prefix){ int n=3*arg+1; std::string s; for(int i=0;i<n;++i) s+=char('a'+i%7); trie_t t; std::vector<std::string> k; std::vector<int> v; k.push_back(s); v.push_back(1); k.push_back(s.substr(0,n/2)); v.push_back(2); for(int i=0;i<2;++i) strtk::trie::insert(t,k[i],v[i]); int l=sym_choose(n+2); std::string q=(s+"x").substr(0,l); if (l) q[sym_choose(l)]=(char)sym_u8(); probe(t,k,v,q); }
JOB(far){ static const int K[]={16,33,64,24}; int n=K[arg]; trie_t t; std::vector<std::string> k; std::vector<int> v; for(int i=0;i<n;++i){ std::string s; if (arg==3) s=std::string(1+i*3,'a'); else { s+=char('a'+i%3); s+=char('a'+i/3%5); for(int j=0;j<i%6;++j) s+=char('a'+(i+j)%4); } k.push_back(s); v.push_back(i); } for(int i=0;i<n;++i) strtk::trie::insert(t,k[(i*7)%n],v[(i*7)%n]); std::vector<std::string> kk; std::vector<int> vv; for(int i=0;i<n;++i){ kk.push_back(k[(i*7)%n]); vv.push_back(v[(i*7)%n]); } int w=sym_choose(4); std::string q=k[w==0?0:w==1?n/2:w==2?n-1:3]; int c=sym_choose(4); if (c==1) q[q.size()-1]=(char)sym_u8(); else if (c==2) q+=(char)sym_u8(); else if (c==3) { q[0]=(char)sym_u8(); q=q.substr(0,2); } probe(t,kk,vv,q); }
