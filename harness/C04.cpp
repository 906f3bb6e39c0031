//@ job ints args=0..7,100..107,200..206,400..406 thorough=8..9,108..109,207..208,407..408
//@ job strs args=0..7,100..107,200..207,300..307,400..407,500..507 thorough=8..10,108..110
//@ job parse_n args=0..6,100..106,200..206,400..406 thorough=7..8,107..108
//@ job long args=30
//@ job far args=17,65,130,417,465,1017,1065 t=200
//@ job pre args=0..5 t=200
//@ job dset args=16,17,33,65,130
//@ bound integer containers: every byte string of length 0..7 (thorough 9) in four delimiter modes; text containers: length 0..7 (thorough 10) in all six; bounded parse: length 0..6, every requested count 0..n+1
//@ bound vector, deque, list, set, multiset, queue, stack, priority queue destinations; entry points taking strings, iterator ranges, range pairs; 30-element inputs with two free bytes
//@ bound lists of up to 130 elements with one arbitrary byte and limits up to 250
//@ bound destinations already holding two elements, every text of up to 5 bytes
//@ bound sets of 15..130 delimiter characters with members at telling places of the set and one or two arbitrary bytes
#include "ref_tokens.h"
#include "ref_int.h"
#include <queue>
#include <stack>
template <typename T> static std::vector<T> items(const std::vector<T>& c){ return c; } template <typename T> static std::vector<T> items(const std::deque<T>& c){ return std::vector<T>(c.begin(),c.end()); } template <typename T> static std::vector<T> items(const std::list<T>& c){ return std::vector<T>(c.begin(),c.end()); }
template <typename T> static std::vector<T> items(const std::set<T>& c){ return std::vector<T>(c.begin(),c.end()); } template <typename T> static std::vector<T> items(const std::multiset<T>& c){ return std::vector<T>(c.begin(),c.end()); }
template <typename T> static std::vector<T> items(std::queue<T>& c){ std::vector<T> v; while(!c.empty()){ v.push_back(c.front()); c.pop(); } return v; }
template <typename T> static std::vector<T> items(std::stack<T>& c){ std::vector<T> v; while(!c.empty()){ v.insert(v.begin(),c.top()); c.pop(); } return v; }
template <typename T> static std::vector<T> items(std::priority_queue<T>& c){ std::vector<T> v; while(!c.empty()){ v.insert(v.begin(),c.top()); c.pop(); } return v; }
enum { SEQ, SORT, UNIQ };
static bool conv(const char* b,int n,int& v){ return ref_int<int>(b,n,v); } static bool conv(const char* b,int n,std::string& v){ v.assign(b,n); return true; }
template <typename T> static void cmp(std::vector<T> got,std::vector<T> w,int kind)
{
   if (kind!=SEQ) std::sort(w.begin(),w.end()); if (kind==UNIQ) w.erase(std::unique(w.begin(),w.end()),w.end());
   CHECKM(got.size()==w.size(),"number of elements parsed into the container"); for(size_t i=0;i<w.size();++i) CHECKM(got[i]==w[i],"elements parsed into the container"); sym_observe(got.size());
}
template <typename T> static std::vector<T> expect(const std::string& s,const ref_tokens& r,size_t limit) { std::vector<T> w; for(size_t i=0;i<r.size()&&i<limit;++i){ T x; if (conv(s.data()+r[i].first,r[i].second-r[i].first,x)) w.push_back(x); } return w; }
template <typename T> static void fill(std::vector<T>& c,const T& a){ c.push_back(a); }
template <typename C,typename T> static void one(const std::string& s,const std::string& del,int mode_,int kind,int entry,long lim)
{
   const strtk::split_options::type mode=mode_;
   std::vector<char> isd; for(size_t i=0;i<s.size();++i){ int is=0; for(size_t j=0;j<del.size();++j) is|=(s[i]==del[j]); isd.push_back(is?1:0); }
   ref_tokens r=ref_split(isd,mode); const char* b=s.data(); const char* e=b+s.size(); C c; size_t k=0;
   if (lim<0)
   {
      if (entry==0) { if (mode==M_COMPRESS) k=strtk::parse(s,del,c); else k=strtk::parse(s,del,c,mode); }
      if (entry==1) { if (mode==M_COMPRESS) k=strtk::parse(b,e,del,c); else k=strtk::parse(b,e,del,c,mode); }
      if (entry==2) { if (mode==M_COMPRESS) k=strtk::parse(std::make_pair(b,e),del,c); else k=strtk::parse(std::make_pair(b,e),del,c,mode); }
      CHECKM(k==r.size(),"returned token count"); cmp<T>(items(c),expect<T>(s,r,1000),kind);
   }
   else
   {
      if (entry==0) { if (mode==M_COMPRESS) k=strtk::parse_n(s,del,(size_t)lim,c); else k=strtk::parse_n(s,del,(size_t)lim,c,mode); }
      else { if (mode==M_COMPRESS) k=strtk::parse_n(b,e,del,(size_t)lim,c); else k=strtk::parse_n(b,e,del,(size_t)lim,c,mode); }
      std::vector<T> it=items(c); CHECKM(k==it.size(),"bounded parse reports the number of elements added"); cmp<T>(it,expect<T>(s,r,lim),kind);
   }
   sym_reach("done");
}
template <typename T> static void any(int w,const std::string& s,const std::string& del,int mode,int entry,long lim)
{
   switch(w){ case 0:one<std::vector<T>,T>(s,del,mode,SEQ,entry,lim);break; case 1:one<std::deque<T>,T>(s,del,mode,SEQ,entry,lim);break; case 2:one<std::list<T>,T>(s,del,mode,SEQ,entry,lim);break; case 3:one<std::set<T>,T>(s,del,mode,UNIQ,entry,lim);break;
   case 4:one<std::multiset<T>,T>(s,del,mode,SORT,entry,lim);break; case 5:one<std::queue<T>,T>(s,del,mode,SEQ,entry,lim);break; case 6:one<std::stack<T>,T>(s,del,mode,SEQ,entry,lim);break; case 7:one<std::priority_queue<T>,T>(s,del,mode,SORT,entry,lim);break; }
}
JOB(ints)
{
   std::string s; int n=arg%100; for(int i=0;i<n;++i) s.push_back((char)sym_u8()); bool multi= n<6 && sym_choose(2);
   if (n<5) any<int>(sym_choose(8),s,multi?"|,":",",arg/100,sym_choose(3),-1); else any<int>(n%3==0?sym_choose(2)*3:n%3,s,multi?"|,":",",arg/100,0,-1);
}
JOB(strs)
{
   std::string s; int n=arg%100; for(int i=0;i<n;++i) s.push_back((char)sym_u8()); bool multi= n<4 && sym_choose(2);
   if (n<4) any<std::string>(sym_choose(8),s,multi?"|,":",",arg/100,sym_choose(3),-1); else any<std::string>(n%3,s,",",arg/100,0,-1);
}
JOB(parse_n)
{
   std::string s; int n=arg%100; for(int i=0;i<n;++i) s.push_back((char)sym_u8()); bool multi= n<4 && sym_choose(2); int lim=sym_choose(n+2);
   if (n<4) any<int>(sym_choose(8),s,multi?"|,":",",arg/100,sym_choose(2),lim); else any<std::string>(sym_choose(3)*2,s,multi?"|,":",",arg/100,0,lim);
}
JOB(long)
{
   std::string s; for(int i=0;i<arg;++i){ if(i) s+=","; s+=char('0'+i%10); } int a=sym_choose(10)*6, b=a+1+sym_choose(3); s[a]=(char)sym_u8(); if (b<(int)s.size()) s[b]=(char)sym_u8(); any<int>(sym_choose(2),s,",",sym_choose(2),0,sym_choose(2)?-1:20);
}
JOB(far)
{
   int n=arg%400, mode=arg/1000?1:arg/400?4:0; if (mode==1) n=arg%1000; if (n==0) n=257; std::string t; for(int i=0;i<n;++i){ if (i) t+=','; if (i%7==3) t+=','; t+= i%4==1?"-37":i%4==2?"4":i%4==3?"x9":"0120"; } int at[3]={0,(int)t.size()/2,(int)t.size()-1}; t[at[sym_choose(3)]]=(char)sym_u8();
   long lims[5]={-1,1,16,64,250}; long lim=lims[sym_choose(5)]; static const int K[]={0,1,2,5,6}; int k=K[sym_choose(n>100?2:5)]; if (sym_choose(2)) any<int>(k,t,",",mode,sym_choose(2),lim); else any<std::string>(k,t,sym_choose(2)?",":",;",mode,sym_choose(2),lim);
}
// destinations that already hold elements keep them, and the count is that of the new ones
static void put(std::vector<int>& c,int v){ c.push_back(v); } static void put(std::deque<int>& c,int v){ c.push_back(v); } static void put(std::list<int>& c,int v){ c.push_back(v); } static void put(std::set<int>& c,int v){ c.insert(v); } static void put(std::multiset<int>& c,int v){ c.insert(v); } static void put(std::queue<int>& c,int v){ c.push(v); } static void put(std::stack<int>& c,int v){ c.push(v); } static void put(std::priority_queue<int>& c,int v){ c.push(v); }
template <typename C> static void pre(const std::string& s,int kind,int entry,long lim)
{
   std::vector<char> isd; for(size_t i=0;i<s.size();++i) isd.push_back(s[i]==','); const std::string del(","); ref_tokens r=ref_split(isd,M_COMPRESS); C c; put(c,7); put(c,100); std::vector<int> w=expect<int>(s,r,lim<0?1000:lim); size_t k; const char* b=s.data();
   if (lim<0) { k=entry==0?strtk::parse(s,del,c):strtk::parse(b,b+s.size(),del,c); CHECKM(k==r.size(),"returned token count"); } else k=entry==0?strtk::parse_n(s,del,(size_t)lim,c):strtk::parse_n(b,b+s.size(),del,(size_t)lim,c);
   w.insert(w.begin(),100); w.insert(w.begin(),7); std::vector<int> it=items(c); if (lim>=0) CHECKM(k==it.size()-2,"bounded parse reports the number of elements added"); cmp<int>(it,w,kind); sym_reach("pre");
}
JOB(pre){ std::string s; for(int i=0;i<arg;++i) s.push_back((char)sym_u8()); int e=sym_choose(2); long lim=arg>3?(sym_choose(2)?2:-1):sym_choose(arg+2)-1; switch(sym_choose(8)){ case 0: pre<std::vector<int> >(s,SEQ,e,lim); break; case 1: pre<std::deque<int> >(s,SEQ,e,lim); break; case 2: pre<std::list<int> >(s,SEQ,e,lim); break; case 3: pre<std::set<int> >(s,UNIQ,e,lim); break; case 4: pre<std::multiset<int> >(s,SORT,e,lim); break; case 5: pre<std::queue<int> >(s,SEQ,e,lim); break; case 6: pre<std::stack<int> >(s,SEQ,e,lim); break; default: pre<std::priority_queue<int> >(s,SORT,e,lim); } }
JOB(dset)
{
   std::string d=many(arg); int k=place(arg); char a=d[k],z=d[arg-1-k]; std::string s="12"; s+=a; s+="42"; s+=z; s+=a; s+="x"; s+=d[arg-1]; s+=(char)sym_u8(); s+='7'; int m=sym_choose(2); long lim=sym_choose(2)?-1:sym_choose(4); int en=sym_choose(lim<0?3:2); if (sym_choose(2)) any<int>(sym_choose(3)*2,s,d,m,en,lim); else any<std::string>(sym_choose(2)*3,s,d,m,en,lim);
}
