//@ job split_n args=0..7,100..107,200..207,300..307,400..407 thorough=8..11,108..111,208..211,308..311,408..411
//@ job split_n_over args=0..4,100..104,200..204,400..404
//@ job split_n_sparse args=24,124,224,324,424
//@ job offsets args=0..10 thorough=11..16
//@ job offsets_many args=13,20,40
//@ job split_pair args=0..9 thorough=10..16
//@ job for_each args=0..7 thorough=8..10
//@ job far args=65,129,257,10065,10257,40129,11025
//@ job far_pair args=65,129,257,1025
//@ job far_off args=65,257,1025
//@ job dset args=15,16,17,32,33,64,65,129,130
//@ bound split_n: inputs of length 0..7 (thorough 0..11), all 256 byte values, symbolic delimiter, every requested count 0..n+2; length 24 with at most two delimiters
//@ bound offset splitter: inputs of length 0..10 (thorough 16), one or two offsets in -2..12 or three or four in -1..3, rotating or not; 12 offsets on length 13..40
//@ bound pair splitting and per-token callbacks: length 0..9 (thorough 16)
//@ bound texts of 65..1025 bytes with a few arbitrary bytes, limits from 0 to beyond the token count
//@ bound sets of 15..130 delimiter characters with members at telling places of the set and one or two arbitrary bytes
#include "ref_tokens.h"
struct In { int n, mode; char* p; std::vector<char> isd; In(int a):n(a%100),mode(a/100),p(new char[a%100]){ sym_bytes(p,n); } ~In(){ delete[] p; }
  const char* b() const { return p; } const char* e() const { return p+n; } };
typedef std::vector<std::pair<const char*,const char*> > V;
static void cmp(ref_tokens r,const V& v,const char* b,size_t k,size_t limit)
{
   if (r.size()>limit) r.resize(limit);
   CHECKM(k==r.size(),"count returned by bounded split"); CHECKM(v.size()==r.size(),"tokens emitted by bounded split");
   for(size_t i=0;i<r.size();++i){ CHECKM(v[i].first-b==r[i].first,"bounded split token start"); CHECKM(v[i].second-b==r[i].second,"bounded split token end"); sym_observe(v[i].second-v[i].first); }
}
JOB(split_n)
{
   In in(arg); char d=(char)sym_u8(); for(int i=0;i<in.n;++i) in.isd.push_back(in.p[i]==d);
   size_t lim=sym_choose(in.n+3); V v;
   size_t k=strtk::split_n(strtk::single_delimiter_predicate<char>(d),in.b(),in.e(),lim,std::back_inserter(v),in.mode);
   cmp(ref_split(in.isd,in.mode),v,in.b(),k,lim);
}
JOB(split_n_sparse)
{
   In in(arg); int a=sym_choose(in.n), b=sym_choose(in.n); sym_assume(a<=b); 
   for(int i=0;i<in.n;++i){ bool is=in.p[i]==','; if(i!=a&&i!=b){ sym_assume(!is); is=false; } else is=is?true:false; in.isd.push_back(is); }
   for(size_t lim=1;lim<5;++lim){ V v; size_t k=strtk::split_n(strtk::single_delimiter_predicate<char>(','),in.b(),in.e(),lim,std::back_inserter(v),in.mode); cmp(ref_split(in.isd,in.mode),v,in.b(),k,lim); }
}
JOB(split_n_over)
{
   In in(arg); std::string s(in.b(),in.e()); const char* b=s.data(); int w=sym_choose(6); bool multi=(w==0||w==2||w==4); size_t lim=sym_choose(4);
   for(int i=0;i<in.n;++i) in.isd.push_back((in.p[i]==',')|(multi&(in.p[i]==';')));
   ref_tokens r=ref_split(in.isd,in.mode); V v; size_t k=0;
   if (w==0) k=strtk::split_n(",;",s,lim,std::back_inserter(v),in.mode);
   if (w==1) k=strtk::split_n(std::string(","),s,lim,std::back_inserter(v),in.mode);
   if (w==2) k=strtk::split_n(std::string(",;"),s,lim,std::back_inserter(v),in.mode);
   if (w==3) k=strtk::split_n(',',s,lim,std::back_inserter(v),in.mode);
   if (w==4) k=strtk::split_n(strtk::multiple_char_delimiter_predicate(",;"),s,lim,std::back_inserter(v),in.mode);
   if (w==5) k=strtk::split_n(strtk::single_delimiter_predicate<char>(','),b,b+s.size(),lim,std::back_inserter(v),in.mode);
   cmp(r,v,b,k,lim);
}
static void off_check(const V& v,size_t k,const char* b,int n,const int* o,int no,bool rot)
{
   // every token starts where the previous ended, has the requested width (or what is left), stops at a non-positive offset
   size_t i=0; int pos=0;
   while (pos<n)
   {
      if (!rot && (int)i>=no) break;
      int w=o[i%no]; if (w<=0) break; if (w>n-pos) w=n-pos;
      CHECKM(i<v.size(),"offset splitter yields too few tokens"); if (i>=v.size()) return;
      CHECKM(v[i].first-b==pos,"offset token start"); CHECKM(v[i].second-b==pos+w,"offset token end"); sym_observe(v[i].second-b);
      pos+=w; ++i;
   }
   CHECKM(v.size()==i && k==i,"offset splitter token count");
}
JOB(offsets)
{
   char* p=new char[arg]; sym_bytes(p,arg); int no=sym_choose(4)+1; bool rot=sym_choose(2); int o[4]; for(int i=0;i<no;++i) o[i]= no<3 ? sym_choose(15)-2 : sym_choose(5)-1;
   V v; size_t k=0; const char* b=p; const char* e=p+arg;
   if (no==1){ if (sym_choose(2)) { strtk::offset_predicate<1> q(o,rot); k=strtk::offset_splitter(b,e,q,std::back_inserter(v)); } else k=strtk::offset_splitter(b,e,strtk::offsets(o[0],rot),std::back_inserter(v)); }
   if (no==2) k=strtk::offset_splitter(b,e,strtk::offsets(o[0],o[1],rot),std::back_inserter(v));
   if (no==3) k=strtk::offset_splitter(b,e,strtk::offsets(o[0],o[1],o[2],rot),std::back_inserter(v));
   if (no==4) k=strtk::offset_splitter(b,e,strtk::offsets(o[0],o[1],o[2],o[3],rot),std::back_inserter(v));
   off_check(v,k,b,arg,o,no,rot); delete[] p;
}
JOB(offsets_many)
{
   std::string s; for(int i=0;i<arg;++i) s.push_back((char)sym_u8()); int which=sym_choose(12)+1; bool rot=sym_choose(2); int o[12]; for(int i=0;i<12;++i) o[i]=1+(i%3); o[which-1]=sym_choose(4);
   V v; size_t k=0;
   switch(which){
   case 1:k=strtk::offset_splitter(s,strtk::offsets(o[0],rot),std::back_inserter(v));break; case 2:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],rot),std::back_inserter(v));break;
   case 3:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],rot),std::back_inserter(v));break; case 4:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],rot),std::back_inserter(v));break;
   case 5:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],rot),std::back_inserter(v));break; case 6:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],rot),std::back_inserter(v));break;
   case 7:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],rot),std::back_inserter(v));break; case 8:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],rot),std::back_inserter(v));break;
   case 9:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],rot),std::back_inserter(v));break; case 10:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9],rot),std::back_inserter(v));break;
   case 11:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9],o[10],rot),std::back_inserter(v));break; case 12:k=strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9],o[10],o[11],rot),std::back_inserter(v));break; }
   off_check(v,k,s.data(),arg,o,which,rot);
}
JOB(split_pair)
{
   std::string s; for(int i=0;i<arg;++i) s.push_back((char)sym_u8()); char d=(char)sym_u8(); const char* b=s.data();
   std::pair<const char*,const char*> a(0,0), c(0,0); int w=sym_choose(3); bool ok=false;
   if (w==0) ok=strtk::split_pair(d,s,a,c);
   if (w==1) ok=strtk::split_pair(strtk::single_delimiter_predicate<char>(d),s,a,c);
   if (w==2) ok=strtk::split_pair(b,b+arg,strtk::single_delimiter_predicate<char>(d),a,c);
   int f=0; while (f<arg && s[f]!=d) ++f;
   bool good = f<arg-1;   // a delimiter exists and something follows it
   CHECKM(ok==good,"split_pair result");
   if (ok) { CHECK(a.first==b && a.second==b+f); CHECK(c.first==b+f+1 && c.second==b+arg); }
   sym_observe(ok);
}
struct Collect { V* v; std::vector<std::string>* s; void operator()(const std::pair<const char*,const char*>& r) { v->push_back(r); } };
JOB(for_each)
{
   std::string s; std::vector<char> d1,d2; for(int i=0;i<arg;++i){ s.push_back((char)sym_u8()); d1.push_back(s[i]==','); d2.push_back((s[i]==',')|(s[i]==';')); }
   V v; Collect c; c.v=&v; int w=sym_choose(3); size_t k=0;
   if (w==0) k=strtk::for_each_token(s,std::string(","),c);
   if (w==1) k=strtk::for_each_token(s,",;",c);
   if (w==2) k=strtk::for_each_token(s,std::string(",;"),c);
   cmp(ref_split(w==0?d1:d2,0),v,s.data(),k,1000);
}
JOB(far)
{
   int n=arg%10000, mode=arg/10000; std::string s=MIXED(n,"a,bcd;efgh,,ijk"); std::vector<char> d1,d2; for(int i=0;i<n;++i){ d1.push_back(s[i]==','); d2.push_back((s[i]==',')|(s[i]==';')); }
   size_t lims[8]={0,1,2,16,33,64,200,100000}; size_t lim=lims[sym_choose(8)]; V v; const char* b=s.data(); size_t k; bool multi=sym_choose(2);
   if (multi) k=strtk::split_n(strtk::multiple_char_delimiter_predicate(",;"),b,b+n,lim,std::back_inserter(v),mode); else k=strtk::split_n(strtk::single_delimiter_predicate<char>(','),b,b+n,lim,std::back_inserter(v),mode); cmp(ref_split(multi?d2:d1,mode),v,b,k,lim);
   V w; Collect c; c.v=&w; if (lim==0) { k=strtk::for_each_token(s,multi?",;":",",c); cmp(ref_split(multi?d2:d1,0),w,b,k,100000); }
}
JOB(far_pair)
{
   std::string s(arg,'x'); char d=(char)sym_u8(); sym_assume(d!='x'); int at[6]={0,1,arg/2,arg-3,arg-2,arg-1}; int p=sym_choose(6),q=sym_choose(6); s[at[p]]=(char)sym_u8(); s[at[q]]=(char)sym_u8(); std::pair<const char*,const char*> a(0,0),c(0,0); const char* b=s.data(); bool ok=sym_choose(2)?strtk::split_pair(d,s,a,c):strtk::split_pair(b,b+arg,strtk::single_delimiter_predicate<char>(d),a,c);
   int f=0; while (f<arg&&s[f]!=d) ++f; CHECKM(ok==(f<arg-1),"split_pair result"); if (ok) { CHECK(a.first==b && a.second==b+f); CHECK(c.first==b+f+1 && c.second==b+arg); }
}
JOB(far_off)
{
   std::string s(arg,'x'); int sizes[8]={1,2,15,17,63,64,65,300}; int o[2]={sizes[sym_choose(8)],sizes[sym_choose(8)]}; bool rot=sym_choose(2); V v; size_t k=strtk::offset_splitter(s.data(),s.data()+arg,strtk::offsets(o[0],o[1],rot),std::back_inserter(v)); off_check(v,k,s.data(),arg,o,2,rot);
}
JOB(dset)
{
   std::string d=many(arg); int k=place(arg); char a=d[k],z=d[arg-1-k]; std::string s="kx"; s+=a; s+="yy"; s+=z; s+=a; s+=(char)sym_u8(); s+="q"; s+=d[arg-1]; int n=s.size(); const char* b=s.data(); std::vector<char> isd; for(int i=0;i<n;++i) isd.push_back(inmany(s[i],arg));
   int w=sym_choose(4); if (w==3) { V v; Collect c; c.v=&v; size_t m=strtk::for_each_token(s,d.c_str(),c); cmp(ref_split(isd,0),v,b,m,100000); return; }
   int mode=sym_choose(5); size_t lim=sym_choose(5); V v; size_t m= w==0 ? strtk::split_n(d.c_str(),s,lim,std::back_inserter(v),mode) : w==1 ? strtk::split_n(d,s,lim,std::back_inserter(v),mode) : strtk::split_n(strtk::multiple_char_delimiter_predicate(d),b,b+n,lim,std::back_inserter(v),mode); cmp(ref_split(isd,mode),v,b,m,lim);
}
