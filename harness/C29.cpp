//@ rt rt_stream
//@ job memory args=0..17,32,33
//@ job arrays args=0..6
//@ job keys args=0..4
//@ job values args=0..4
//@ job destroy args=0..5
//@ job selective args=0..4
//@ job push args=1..11
//@ job clear args=0..6
//@ job flip args=0..7
//@ job far args=0..9
//@ bound memory blocks of 0..17, 32, 33 symbolic bytes; arrays of 6 with every source length; maps of up to 4 symbolic entries; up to 5 owned objects with every subset selected
//@ bound containers of 9..65 owned objects with eight selections; memory blocks up to 129 bytes differing in up to two places; texts and arrays of up to 65
#include "common.h"
#include <stack>
#include <queue>
namespace su=strtk::util;
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
template <size_t N> static void mem(){ unsigned char* a=new unsigned char[N+1]; unsigned char* b=a; a=new unsigned char[N?N:1]; unsigned char* c=new unsigned char[N?N:1]; delete[] b; if (N) { sym_bytes(a,N); sym_bytes(c,N); } int eq=1; for(size_t i=0;i<N;++i) eq&=(a[i]==c[i]); bool r=strtk::memcmp_n<N>((strtk::details::ptr)a,(strtk::details::ptr)c); CHECKM(r==(eq!=0),"equal exactly if all bytes are"); CHECK(strtk::memcmp_n<N>((const char*)a,(const char*)c)==r); delete[] a; delete[] c; }
JOB(memory){ switch(arg){ 
#define M(n) case n: mem<n>(); break;
 case 0: { unsigned char a[1]={1},b[1]={2}; CHECK(strtk::memcmp_n<0>((strtk::details::ptr)a,(strtk::details::ptr)b)); break; }
 M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(32) M(33) }
   if (arg==3) { unsigned char a[5],b[4]; sym_bytes(a,5); sym_bytes(b,4); int eq=1; for(int i=0;i<3;++i) eq&=(a[i]==b[i]); bool r=strtk::memcmp_n<3>(a,b); CHECK(r==(eq!=0)); } }
JOB(arrays){ int n=arg; unsigned char* a=new unsigned char[6],*o=new unsigned char[6]; sym_bytes(a,6); std::copy(a,a+6,o); typedef unsigned char A6[6]; A6& r=*(A6*)a; std::string s=txt(n); bool pad=sym_choose(2); unsigned char pc=sym_u8(); bool dflt=sym_choose(2); bool ok=dflt?(pad?strtk::set_array(r,s,true):strtk::set_array(r,s)):strtk::set_array(r,s,pad,pc); if (dflt) pc='0'; CHECKM(ok,"fits"); int e=1; for(int i=0;i<6;++i) e&=(a[i]==(i<n?(unsigned char)s[i]:pad?pc:o[i])); CHECKM(e,"text, then padding or the old content"); 
   std::copy(o,o+6,a); std::string t=txt(7); CHECKM(!strtk::set_array(r,t,pad,pc),"too long is refused"); e=1; for(int i=0;i<6;++i) e&=(a[i]==o[i]); CHECKM(e,"and changes nothing"); 
   { unsigned char q[4]; sym_bytes(q,4); CHECK(strtk::set_array(r,q,pad,pc)); e=1; for(int i=0;i<6;++i) e&=(a[i]==(i<4?q[i]:pad?pc:o[i])); CHECKM(e,"array source"); unsigned char z[4]; std::copy(q,q+4,z); CHECK(!strtk::set_array(z,r)); CHECK(z[0]==q[0]&&z[3]==q[3]); unsigned char y[6]; CHECK(strtk::set_array(y,r)&&std::equal(y,y+6,a)); }
   std::copy(o,o+6,a); unsigned char v=sym_u8(); CHECK(strtk::clear_array(r,v,(size_t)n)); e=1; for(int i=0;i<6;++i) e&=(a[i]==(i<n?v:o[i])); CHECKM(e,"cleared up to the length"); std::copy(o,o+6,a); CHECKM(!strtk::clear_array(r,v,(size_t)7),"too long is refused"); e=1; for(int i=0;i<6;++i) e&=(a[i]==o[i]); CHECK(e); CHECK(strtk::clear_array(r,v)); for(int i=0;i<6;++i) CHECK(a[i]==v);
   char c[3]; sym_bytes(c,3); std::string m=strtk::make_string(c); CHECKM(m.size()==3&&m[0]==c[0]&&m[2]==c[2],"string of an array"); m=strtk::make_string(c,2); CHECK(m.size()==2&&m[1]==c[1]); CHECKM(strtk::make_string(c,4).empty(),"longer than the array"); m=strtk::make_string(r,(size_t)n); CHECK((int)m.size()==n); CHECK(strtk::make_string(r,7).empty()); m=strtk::make_string(std::pair<const char*,const char*>(c,c+2)); CHECK(m.size()==2&&m[0]==c[0]); delete[] a; delete[] o; }
template <typename S> static void keysof(const std::map<int,int>& m,const std::vector<int>& w){ S s; su::make_key_list(m,s); std::vector<int> v(s.begin(),s.end()); CHECKM(v==w,"the keys in order"); }
JOB(keys){ std::map<int,int> m; std::vector<int> w; for(int i=0;i<arg;++i){ int k=sym<short>(); m[k]=i; } for(std::map<int,int>::iterator i=m.begin();i!=m.end();++i) w.push_back(i->first); switch(sym_choose(5)){ case 0: keysof<std::vector<int> >(m,w); break; case 1: keysof<std::deque<int> >(m,w); break; case 2: keysof<std::list<int> >(m,w); break; case 3: keysof<std::set<int> >(m,w); break; default: keysof<std::multiset<int> >(m,w); } }
JOB(values){ std::multimap<int,int> m; std::vector<int> w; int k=sym<signed char>(); for(int i=0;i<arg;++i){ int q=sym<signed char>(),v=sym<int>(); m.insert(std::make_pair(q,v)); if (q==k) w.push_back(v); } std::vector<int> r; if (sym_choose(2)) su::make_value_list(m,k,r); else su::make_value_list(m,k,std::back_inserter(r)); CHECKM(r==w,"exactly the values under the key, in order"); }
static int dead[8]; struct obj { int id; obj(int i):id(i){} ~obj(){ dead[id]++; } };
static void reset(){ for(int i=0;i<8;++i) dead[i]=0; }
JOB(destroy){ reset(); int n=arg; int f=sym_choose(7); if (f==0) { std::vector<obj*> v; for(int i=0;i<n;++i) v.push_back(new obj(i)); su::delete_all(v); CHECK(v.empty()); } else if (f==1) { std::list<obj*> v; for(int i=0;i<n;++i) v.push_back(new obj(i)); su::delete_all(v); CHECK(v.empty()); } else if (f==2) { std::map<int,obj*> v; for(int i=0;i<n;++i) v[sym_u8()*8+i]=new obj(i); su::delete_all(v); CHECK(v.empty()); } else if (f==3) { std::multimap<int,obj*> v; for(int i=0;i<n;++i) v.insert(std::make_pair(i/2,new obj(i))); su::delete_all(v); CHECK(v.empty()); } else if (f==4) { std::set<obj*> v; for(int i=0;i<n;++i) v.insert(new obj(i)); su::delete_all(v); CHECK(v.empty()); } else if (f==5) { std::multiset<obj*> v; for(int i=0;i<n;++i) v.insert(new obj(i)); su::delete_all(v); CHECK(v.empty()); } else { std::deque<obj*> v; for(int i=0;i<n;++i) v.push_back(new obj(i)); su::delete_all(v); CHECK(v.empty()); } for(int i=0;i<n;++i) CHECKM(dead[i]==1,"every object destroyed once"); }
struct pick { unsigned m; bool operator()(const obj* o) const { return (m>>o->id)&1; } template <typename K> bool operator()(const std::pair<const K,obj*>& p) const { return (m>>p.second->id)&1; } };
template <typename S> static void ins(S& s,obj* o){ s.insert(s.end(),o); }
template <typename S> static void sel(int n,unsigned m){ S v; std::vector<obj*> all; for(int i=0;i<n;++i){ all.push_back(new obj(i)); ins(v,all[i]); } pick p={m}; su::delete_if(p,v); size_t left=0; for(int i=0;i<n;++i) { CHECKM(dead[i]==(int)((m>>i)&1),"exactly the selected objects are destroyed"); if (!((m>>i)&1)) ++left; } CHECKM(v.size()==left,"and removed"); for(typename S::iterator i=v.begin();i!=v.end();++i) CHECK(!((m>>(*i)->id)&1)); su::delete_all(v); }
JOB(selective){ reset(); unsigned m=sym_choose(1<<arg); switch(sym_choose(6)){ case 0: sel<std::vector<obj*> >(arg,m); break; case 1: sel<std::list<obj*> >(arg,m); break; case 2: sel<std::set<obj*> >(arg,m); break; case 3: sel<std::multiset<obj*> >(arg,m); break; case 4: { std::map<int,obj*> v; for(int i=0;i<arg;++i) v[i]=new obj(i); pick p={m}; su::delete_if(p,v); for(int i=0;i<arg;++i) CHECKM(dead[i]==(int)((m>>i)&1)&&v.count(i)==!((m>>i)&1),"exactly the selected objects"); su::delete_all(v); break; } default: { std::multimap<int,obj*> v; for(int i=0;i<arg;++i) v.insert(std::make_pair(i/2,new obj(i))); pick p={m}; su::delete_if(p,v); for(int i=0;i<arg;++i) CHECKM(dead[i]==(int)((m>>i)&1),"exactly the selected objects"); su::delete_all(v); } } for(int i=0;i<arg;++i) CHECK(dead[i]==1); }
template <typename S> static void push(S& s,const int* x,int n){ switch(n){ case 1: su::push_back(s,x[0]); break; case 2: su::push_back(s,x[0],x[1]); break; case 3: su::push_back(s,x[0],x[1],x[2]); break; case 4: su::push_back(s,x[0],x[1],x[2],x[3]); break; case 5: su::push_back(s,x[0],x[1],x[2],x[3],x[4]); break; case 6: su::push_back(s,x[0],x[1],x[2],x[3],x[4],x[5]); break; case 7: su::push_back(s,x[0],x[1],x[2],x[3],x[4],x[5],x[6]); break; case 8: su::push_back(s,x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7]); break; case 9: su::push_back(s,x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8]); break; case 10: su::push_back(s,x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9]); break; } }
JOB(push){ int x[11]; for(int i=0;i<11;++i) x[i]=sym<int>(); std::vector<int> v(1,5); std::deque<int> d; if (arg==11) { su::push_back(v,x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10]); su::push_back(d,x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10]); } else { push(v,x,arg); push(d,x,arg); int y[11]={7,3,9,1,8,2,6,4,5,0,11}; std::set<int> s; push(s,y,arg); CHECK((int)s.size()==arg); for(int i=0;i<arg;++i) CHECKM(s.count(y[i]),"inserted"); std::multiset<int> ms; push(ms,y,arg); CHECK((int)ms.size()==arg); for(int i=0;i<arg;++i) CHECKM(ms.count(y[i])==1,"inserted"); } CHECK((int)v.size()==arg+1&&v[0]==5&&(int)d.size()==arg); int ok=1; for(int i=0;i<arg;++i) ok&=(v[i+1]==x[i])&(d[i]==x[i]); CHECKM(ok,"appended in order"); }
JOB(clear){ std::vector<int> x(3,sym<int>()); switch(arg){ case 0: { std::vector<int> v(x); su::clear(v); CHECKM(v.empty()&&v.capacity()==0,"emptied with its memory"); break; } case 1: { std::deque<int> v(x.begin(),x.end()); su::clear(v); CHECK(v.empty()); break; } case 2: { std::list<int> v(x.begin(),x.end()); su::clear(v); CHECK(v.empty()); break; } case 3: { std::set<int> v(x.begin(),x.end()); su::clear(v); CHECK(v.empty()); break; } case 4: { std::multiset<int> v(x.begin(),x.end()); su::clear(v); CHECK(v.empty()); break; } case 5: { std::stack<int> v; v.push(x[0]); su::clear(v); CHECK(v.empty()); break; } default: { std::queue<int> v; v.push(x[0]); su::clear(v); CHECK(v.empty()); } } }
JOB(flip){ std::string s=txt(arg),r=s; strtk::reverse(r); CHECK((int)r.size()==arg); int ok=1; for(int i=0;i<arg;++i) ok&=(r[i]==s[arg-1-i]); CHECKM(ok,"reversed"); char* p=new char[arg+2]; p[0]='<'; p[arg+1]='>'; std::copy(s.begin(),s.end(),p+1); strtk::range::adapter<char> a(p+1,p+1+arg); strtk::reverse(a); CHECK(p[0]=='<'&&p[arg+1]=='>'&&std::equal(r.begin(),r.end(),p+1)); strtk::range::string q((const char*)p+1,(const char*)p+1+arg); strtk::reverse(q); CHECK(std::equal(s.begin(),s.end(),p+1)); char v=sym_u8(); strtk::fill(r,v); ok=1; for(int i=0;i<arg;++i) ok&=(r[i]==v); CHECKM(ok&&(int)r.size()==arg,"filled"); std::vector<int> w(arg,3); strtk::fill(w,(int)v); for(int i=0;i<arg;++i) CHECK(w[i]==(int)v); CHECK(p[0]=='<'&&p[arg+1]=='>'); delete[] p; }
static int live=0; struct elem_t { int id; elem_t(int i):id(i){ ++live; } ~elem_t(){ --live; id=-1; } };
struct third { unsigned char t; bool operator()(const elem_t* o) const { return (unsigned char)(o->id%7)<t; } template <typename K> bool operator()(const std::pair<const K,elem_t*>& p) const { return (*this)(p.second); } };
template <typename S> static void far(int n){ live=0; S v; std::vector<elem_t*> all; for(int i=0;i<n;++i){ all.push_back(new elem_t(i)); v.insert(v.end(),all[i]); } third t={(unsigned char)sym_choose(8)}; int left=0; for(int i=0;i<n;++i) left+=!t(all[i]); std::vector<int> keep; for(int i=0;i<n;++i) if (!t(all[i])) keep.push_back(i); su::delete_if(t,v); CHECKM(live==left&&(int)v.size()==left,"exactly the selected objects go"); std::vector<int> got; for(typename S::iterator i=v.begin();i!=v.end();++i) got.push_back((*i)->id); std::sort(got.begin(),got.end()); CHECKM(got==keep,"the others stay"); su::delete_all(v); CHECKM(live==0&&v.empty(),"every object destroyed once"); }
template <size_t N> static void memfar(){ unsigned char* a=new unsigned char[N]; unsigned char* c=new unsigned char[N]; for(size_t i=0;i<N;++i) a[i]=c[i]=(unsigned char)(i*3); static const size_t at[]={0,1,N/2,N-2,N-1}; a[at[sym_choose(5)]]=sym_u8(); c[at[sym_choose(5)]]=sym_u8(); int eq=1; for(size_t i=0;i<N;++i) eq&=(a[i]==c[i]); CHECKM(strtk::memcmp_n<N>((strtk::details::ptr)a,(strtk::details::ptr)c)==(eq!=0),"equal exactly if all bytes are"); delete[] a; delete[] c; }
JOB(far){ static const int L[]={9,17,33,65}; int n=L[sym_choose(4)]; switch(arg){ case 0: far<std::vector<elem_t*> >(n); break; case 1: far<std::list<elem_t*> >(n); break; case 2: far<std::deque<elem_t*> >(n); break; case 3: far<std::set<elem_t*> >(n); break; case 4: { live=0; std::map<int,elem_t*> v; for(int i=0;i<n;++i) v[(i*37)%128]=new elem_t(i); third t={(unsigned char)sym_choose(8)}; int left=0; for(int i=0;i<n;++i) left+=!((unsigned char)(i%7)<t.t); su::delete_if(t,v); CHECKM(live==left&&(int)v.size()==left,"exactly the selected objects go"); for(std::map<int,elem_t*>::iterator i=v.begin();i!=v.end();++i) CHECKM(i->first==(i->second->id*37)%128&&!t(i->second),"the others stay"); su::delete_all(v); CHECKM(live==0&&v.empty(),"every object destroyed once"); break; }
   case 5: { switch(sym_choose(8)){ case 0: memfar<48>(); break; case 1: memfar<63>(); break; case 2: memfar<64>(); break; case 3: memfar<65>(); break; case 4: memfar<100>(); break; case 5: memfar<129>(); break; case 6: memfar<31>(); break; default: memfar<24>(); } break; }
   case 6: { std::string s=MIXED(n,"axBc"),r=s; strtk::reverse(r); int ok=1; for(int i=0;i<n;++i) ok&=(r[i]==s[n-1-i]); CHECKM(ok&&(int)r.size()==n,"reversed"); char v=sym_u8(); strtk::fill(r,v); ok=1; for(int i=0;i<n;++i) ok&=(r[i]==v); CHECKM(ok,"filled"); break; }
   case 7: { unsigned char a[64]; for(int i=0;i<64;++i) a[i]=(unsigned char)(i+100); std::string s=MIXED(n<65?n:64,"kQ"); unsigned char pc=sym_u8(); bool pad=sym_choose(2); CHECK(strtk::set_array(a,s,pad,pc)); int e=1; for(int i=0;i<64;++i) e&=(a[i]==(i<(int)s.size()?(unsigned char)s[i]:pad?pc:(unsigned char)(i+100))); CHECKM(e,"text, then padding or the old content"); CHECK(!strtk::set_array(a,std::string(65,'x'),pad,pc)); CHECK(!strtk::clear_array(a,pc,(size_t)65)); std::string m=strtk::make_string(a,s.size()); CHECK(m.size()==s.size()&&m.substr(0,s.size())==s); break; }
   case 8: { std::map<int,int> m; for(int i=0;i<n;++i) m[(i*37)%128]=i; std::vector<int> v; std::deque<int> d; std::list<int> l; su::make_key_list(m,v); su::make_key_list(m,d); su::make_key_list(m,l); CHECKM((int)v.size()==n&&(int)d.size()==n&&(int)l.size()==n,"one entry per key"); for(int i=1;i<n;++i) CHECKM(v[i-1]<v[i],"in order"); CHECK(std::equal(v.begin(),v.end(),d.begin())&&std::equal(v.begin(),v.end(),l.begin())); break; }
   default: { std::multimap<int,int> m; for(int i=0;i<n;++i) m.insert(std::make_pair((i*5)%4,i)); int k=(int)sym_choose(6)-1; std::vector<int> r,w; for(int i=0;i<n;++i) if ((i*5)%4==k) w.push_back(i); su::make_value_list(m,k,r); CHECKM(r==w,"exactly the values under the key, in order"); } } sym_reach("far"); }
